"""The file backend: crashes, torn writes, errors and concurrent processes at every file system call."""
import errno
import random
from mc import fsys, explore
from mc.sut import *
from django_cache_dependencies.backends import FileBasedCache

ASSUMPTIONS = [
    'the file system executes a call completely or not at all, except for writes, and keeps what a dead process has '
    'written; power failure is outside',
    'rename replaces the target atomically',
    'the cache holds fewer entries than MAX_ENTRIES: culling does not happen',
    'a read concurrent with a store finds a previous entry that has not expired (see the known finding)',
]

SMALL, MEDIUM, LARGE = 'v', 'm', 'l'


def value(tag, size):
    """A value whose stored form has a small, medium or large number of bytes."""
    if size == SMALL:
        return [tag]
    r = random.Random.__new__(random.Random)
    import hashlib
    n = 400 if size == MEDIUM else 12000
    return [tag] + [hashlib.md5(('%s%d' % (tag, i)).encode()).hexdigest() for i in range(n // 16)]


dice = [0.5]
random.random = lambda: dice[0]


class Sys(object):
    def __init__(self, ch, params=None):
        rt.fresh(tick=0)
        dice[0] = 0.5
        self.ch = ch
        self.root = fsys.scratch()
        self.dir = self.root + '/cache'
        self.params = {'TIMEOUT': 600} if params is None else params
        self.cache = self.new()
        self.procs = []

    def new(self):
        return FileBasedCache(self.dir, dict(self.params))

    def proc(self, name, fn):
        p = fsys.Proc(fn, self.root, name)
        self.procs.append(p)
        return p

    def done(self):
        for p in self.procs:
            p.kill()

    def read(self, cache=None, key='k', version=None):
        try:
            return (cache or self.cache).get(key, None, version)
        except Exception as e:
            raise Violation('the read failed: %s: %s' % (type(e).__name__, e))


def closing(body):
    def run(ch):
        s = Sys(ch)
        try:
            return body(ch, s)
        finally:
            s.done()
    return run


def name_of(v):
    return v[0] if isinstance(v, list) else repr(v)


def one_of(got, allowed, what):
    for a in allowed:
        if got == a and type(got) is type(a):
            return
    raise Violation('%s returned %.80r instead of one of %s' % (what, got, [name_of(a) for a in allowed]))


def torn(size):
    return sorted({0, 1, size // 2, size - 1, size} - {-1})


ERRORS = {
    'open-new': [errno.ENOSPC, errno.EMFILE, errno.EACCES], 'open-write': [errno.ENOSPC, errno.EACCES], 'open-truncate': [errno.ENOSPC],
    'open': [], 'write': [errno.ENOSPC, errno.EIO], 'sendfile': [errno.ENOSPC], 'close': [errno.EIO, errno.ENOSPC],
    'rename': [errno.EACCES, errno.ENOSPC, errno.EIO], 'unlink': [errno.EACCES], 'mkdir': [errno.ENOSPC, errno.EACCES], 'link': [errno.EIO],
    'truncate': [errno.EIO], 'fsync': [errno.EIO], 'chmod': [errno.EPERM], 'stat': [], 'read': [], 'symlink': [errno.EIO], 'rmdir': [errno.EACCES],
}


def commands(p, crash=True, errors=True, short=True):
    """What can happen at the pending call: [(command, cost, description)]"""
    op, size, a, b = p.at
    out = [('g', 0, 'done')]
    if crash:
        out.append(('x', 1, 'the process dies'))
    if op in ('write', 'sendfile'):
        if crash:
            out += [('t%d' % n, 1, 'the process dies with part of it written') for n in torn(size)[1:]]
        if short and size > 1:
            out += [('s%d' % n, 1, 'a part is written and the call says so') for n in torn(size)[1:-1]]
    if errors:
        out += [('e%d' % e, 1, 'fails with %s' % errno.errorcode[e]) for e in ERRORS[op]]
    return out


def drive(ch, p, **kw):
    """One call of the process, with the environment's choice of how it goes.  True: it went as asked for."""
    menu = commands(p, **kw)
    c, cost, text = menu[ch.choose(len(menu), [x[1] for x in menu])]
    if c != 'g' or ch.log is not None:
        ch.note('%s: %s %d: %s' % (p.name, p.at[0], p.at[1], text))
    p.step(c)
    return c[0]


def crashes(sizes):
    """One store that dies or fails, once or twice, anywhere; then reads, a store, reads at later times."""
    def body(ch, s):
        kind = ch.choose(4)             # nothing, an entry, an entry of any length, no directory
        old = None
        t_old = None
        new_size = ch.pick(sizes)
        t_new = ch.pick([100, 300])
        if kind in (1, 2):
            old = value('old', ch.pick(sizes))
            t_old = 200
            s.cache.set('k', old, t_old)
        s.cache.set('other', ['other'], 1000)
        if kind == 3:
            import shutil
            shutil.rmtree(s.dir)
        new = value('new', new_size)
        if kind == 2:
            dice[0] = 0.9               # the store also starts a thread that culls
        p = s.proc('writer', lambda: s.cache.set('k', new, t_new))
        how = []
        while p.running:
            c = drive(ch, p)
            if c != 'g':
                how.append(c)
        dice[0] = 0.5
        faults = [c for c in how if c not in 'gs']
        allowed = [new] if not faults else [old, new]
        got = s.read()
        ch.note('read: %s' % name_of(got))
        one_of(got, allowed, 'a read after the store')
        one_of(s.read(s.new()), [got], 'a read by another cache object')
        if not faults and p.error:
            raise Violation('the store failed by itself: %s' % p.error)
        if kind != 3:
            one_of(s.read(key='other'), [['other']], 'a read of another key')
        if s.cache.has_key('k') != (got is not None):
            raise Violation('has_key() contradicts get()')
        third = ch.choose(2)
        if third:
            # a later store is not in the way of what the dead one left
            latest = value('latest', SMALL)
            s.cache.set('k', latest, 50)
            one_of(s.read(), [latest], 'a read after another store')
            rt.clock.advance(51)
            one_of(s.read(), [None], 'a read after the expiry of the other store')
        else:
            ends = {None: None}
            if got is not None:
                end = t_old if got == old else t_new
                rt.clock.advance(end - 1)
                one_of(s.read(), [got], 'a read one second before the expiry of what was read')
                rt.clock.advance(2)
                one_of(s.read(), [None], 'a read after the expiry')
        return kind, ''.join(how), name_of(got)
    return body


def reading(sizes, target='writer'):
    """A store and a read, their file system calls interleaved in every way."""
    def body(ch, s):
        old = value('old', ch.pick(sizes)) if ch.choose(2) else None
        new = value('new', ch.pick(sizes))
        if old:
            s.cache.set('k', old, 200)
        if target == 'writer':
            w = s.proc('writer', lambda: s.cache.set('k', new, 100))
        else:
            w = s.proc('deleter', lambda: s.cache.delete('k'))
            new = None
        r = None
        allowed = [old, new]
        first_over = False
        r = s.proc('reader', lambda: s.cache.get('k'))
        started = False
        before = None
        while r.running:
            options = [r] + ([w] if w.running else [])
            p = options[ch.choose(len(options))]
            if p is r and not started:
                started = True
                before = w.running and not w.log
            p.step()
        if r.error:
            raise Violation('the concurrent read failed: %s' % r.error)
        one_of(r.result, allowed if w.log else [old], 'a concurrent read')
        seen = r.result
        ch.note('the reader saw %s after %d calls of the %s' % (name_of(seen), len(w.log), w.name))
        # time does not go back
        while True:
            got = s.read()
            one_of(got, [new] if seen == new else [old, new], 'a second read')
            seen = got
            if not w.running:
                break
            w.step()
        one_of(seen, [new], 'a read after the %s' % w.name)
        if w.error:
            raise Violation('the %s failed: %s' % (w.name, w.error))
        return len(w.log), name_of(r.result)
    return body


def writing(sizes, fault=False, directory=True, preload=True):
    """Two stores of a key, their file system calls interleaved; a read after each of them."""
    def body(ch, s):
        old = None
        if preload and ch.choose(2):
            old = value('old', SMALL)
            s.cache.set('k', old, 500)
        a = value('a', ch.pick(sizes))
        b = value('b', ch.pick(sizes))
        if not directory:
            import shutil
            shutil.rmtree(s.dir)
        ps = [s.proc('A', lambda: s.cache.set('k', a, 100)), s.proc('B', lambda: s.cache.set('k', b, 300))]
        value_of = {'A': a, 'B': b}
        cur = None
        seen = old
        failed = set()
        while any(p.running for p in ps):
            options = [p for p in ps if p.running]
            if cur is not None and cur.running:
                options = [cur] + [p for p in options if p is not cur]
                p = options[ch.choose(len(options), [0] + [1] * (len(options) - 1))]
            else:
                p = ch.pick(options)
            cur = p
            if fault:
                if drive(ch, p, short=False) != 'g':
                    failed.add(p.name)
            else:
                p.step()
            got = s.read()
            allowed = [seen] + [value_of[p.name] for p in ps]
            one_of(got, allowed, 'a read between the stores')
            if got is None and any(not q.running and q.name not in failed for q in ps):
                raise Violation('nothing to read although the store of %s is complete' % [
                    q.name for q in ps if not q.running])
            if got != seen:
                ch.note('after %s of %s: %s' % (p.log[-1], p.name, name_of(got)))
            seen = got
        for p in ps:
            if p.error and p.name not in failed:
                raise Violation('the store of %s failed: %s' % (p.name, p.error))
        ok = [value_of[p.name] for p in ps if p.name not in failed]
        if len(ok) == 2:
            one_of(seen, ok, 'a read after both stores')
        elif ok:
            one_of(seen, [a, b], 'a read after the stores')
        if seen is not None:
            t = 500 if seen == old else 100 if seen == a else 300
            rt.clock.advance(t - 1)
            one_of(s.read(), [seen], 'a read before the expiry')
            rt.clock.advance(2)
            one_of(s.read(), [None], 'a read after the expiry')
        return name_of(seen), ''.join(sorted(failed))
    return body


def expired_reader(ch, s):
    """A reader that finds the previous entry expired removes whatever is there by the time it gets to it."""
    s.cache.set('k', ['old'], 10)
    rt.clock.advance(20)
    r = s.proc('reader', lambda: s.cache.get('k'))
    while r.running and r.at[0] != 'unlink':
        r.step()
    s.cache.set('k', ['new'], 100)
    while r.running:
        r.step()
    if r.error:
        raise Violation('the read failed: %s' % r.error)
    one_of(s.read(), [['new']], 'a read after the store')
    return 'kept'


# ------------------------------------------------------------------------------------------------------ histories

KEYS = ['k1', 'k2', 'a key with spaces \u00e9']


def histories(depth):
    """Histories of all operations by two cache objects against a dictionary with expiry."""
    def body(ch, s):
        other = s.new()
        caches = [s.cache, other]
        model = {}                      # (key, version) -> (value, end)
        n = [0]

        def live(k, v=1):
            e = model.get((k, v))
            if e is not None and (e[1] is None or e[1] >= rt.clock.now):
                return e
            model.pop((k, v), None)

        def put(k, val, timeout=600, v=1):
            if timeout is not None and timeout <= 0:
                model.pop((k, v), None)
            else:
                model[k, v] = (val, None if timeout is None else rt.clock.now + timeout)

        def fresh():
            n[0] += 1
            return [n[0], None, {'x': n[0]}]

        def check(what, got, want):
            if got != want:
                raise Violation('%s: %r instead of %r' % (what, got, want))

        for i in range(depth):
            c = caches[i % 2]
            op = ch.choose(14)
            if op < 6:
                k, timeout, v = [('k1', 600, 1), ('k1', 30, 1), ('k2', 600, 1), ('k1', 600, 2), ('k1', 0, 1), (KEYS[2], 600, 1)][op]
                val = fresh()
                if timeout == 600:
                    c.set(k, val, version=v)
                else:
                    c.set(k, val, timeout, version=v)
                put(k, val, timeout, v)
                ch.note('set(%r, %r, timeout=%r, version=%d)' % (k, val, timeout, v))
            elif op == 6:
                val = fresh()
                want = live('k1') is None
                check('add', c.add('k1', val, 100), want)
                if want:
                    put('k1', val, 100)
            elif op == 7:
                c.delete('k1')
                model.pop(('k1', 1), None)
            elif op == 8:
                a, b = fresh(), fresh()
                c.set_many({'k1': a, 'k2': b}, 50)
                put('k1', a, 50)
                put('k2', b, 50)
            elif op == 9:
                c.clear()
                model.clear()
            elif op == 10:
                c.set('k1', 5, 100)
                put('k1', 5, 100)
                check('incr', c.incr('k1'), 6)
                put('k1', 6)
            elif op == 11:
                want = {k: live(k)[0] for k in KEYS if live(k)}
                check('get_many', c.get_many(KEYS), want)
            elif op == 12:
                rt.clock.advance(40)
            else:
                rt.clock.advance(570)
            if ch.fresh():
                for c in caches:
                    for k in KEYS:
                        for v in (1, 2):
                            e = live(k, v)
                            check('get(%r, version=%d)' % (k, v), c.get(k, None, v), e and e[0])
                            check('has_key(%r, version=%d)' % (k, v), c.has_key(k, v), e is not None)
        return repr(sorted((k, str(v[1])) for k, v in model.items()))
    return body


def odd_keys(ch, s):
    """Keys that differ only just have entries of their own."""
    keys = [k for k in NAMES if isinstance(k, type(u''))]
    i, j = ch.choose(len(keys)), ch.choose(len(keys))
    if i >= j:
        raise Prune()
    a, b = keys[i], keys[j]
    ch.note('%r and %r' % (a, b))
    other = s.new()
    s.cache.set(a, ['a'])
    s.cache.set(b, ['b'])
    one_of(s.read(other, a), [['a']], 'a read of the first')
    one_of(s.read(other, b), [['b']], 'a read of the second')
    one_of(s.read(other, b, 2), [None], 'a read of another version of the second')
    other.delete(a)
    one_of(s.read(None, a), [None], 'a read of the deleted first')
    one_of(s.read(None, b), [['b']], 'a read of the second')


def failing_values(ch, s):
    """A value that cannot be stored leaves what is there."""
    old = [None, ['old']][ch.choose(2)]
    if old:
        s.cache.set('k', old, 100)

    class Bad(object):
        def __init__(self, e):
            self.e = e

        def __reduce__(self):
            raise self.e('bad')
    bad = ch.pick([Bad(RuntimeError), Bad(IOError), Bad(KeyboardInterrupt), lambda: 0, [value('x', LARGE), Bad(TypeError)]])
    try:
        s.cache.set('k', bad, 50)
    except BaseException as e:
        ch.note('raised %s' % type(e).__name__)
    one_of(s.read(), [old], 'a read after the failed store')
    s.cache.set('k', ['next'], 100)
    one_of(s.read(), [['next']], 'a read after the next store')
    return repr(old)


PARAMS = [
    {}, {'TIMEOUT': None}, {'TIMEOUT': 0}, {'TIMEOUT': 50}, {'KEY_PREFIX': 'p'}, {'VERSION': 3},
]


def timeouts(ch):
    """Every default timeout x every timeout given: when does the entry end."""
    params = ch.pick(PARAMS)
    s = Sys(ch, params)
    from django.core.cache.backends.base import DEFAULT_TIMEOUT
    how = ch.choose(6)
    default = params.get('TIMEOUT', 300)
    if how == 0:
        s.cache.set('k', [1])
        end = default
    elif how == 1:
        s.cache.set('k', [1], 20)
        end = 20
    elif how == 2:
        s.cache.set('k', [1], timeout=20.5)
        end = 20.5
    elif how == 3:
        s.cache.set('k', [1], timeout=-1)
        end = -1
    elif how == 4:
        s.cache.add('k', [1])
        end = default
    else:
        s.cache.set('k', [1], 60 * 60 * 24 * 40)
        end = 60 * 60 * 24 * 40
    dead = end is not None and end <= 0
    if dead:
        rt.clock.advance(0.5)
    one_of(s.read(), [None if dead else [1]], 'a read at once')
    if not dead:
        if end is None:
            rt.clock.advance(10 ** 9)
            one_of(s.read(), [[1]], 'a read after 30 years')
        else:
            rt.clock.advance(end - 0.5)
            one_of(s.read(), [[1]], 'a read before the end')
            one_of(s.read(s.new()), [[1]], 'a read before the end, by another cache object,')
            rt.clock.advance(1)
            one_of(s.read(), [None], 'a read after the end')
    return end


def harnesses(tier):
    deep = tier == 'thorough'
    out = [
        Harness('crashes and errors', closing(crashes([SMALL, MEDIUM, LARGE])), bound=2 if deep else 1,
                about='a store with %d crash, torn write, short write or error at every file system call' % (2 if deep else 1)),
        Harness('two faults', closing(crashes([SMALL])), bound=3 if deep else 2, about='a store of a small value with 2 faults'),
        Harness('concurrent reader', closing(reading([SMALL, LARGE] if deep else [SMALL])), about='every interleaving of a store and a read'),
        Harness('delete and reader', closing(reading([SMALL], 'deleter')), about='every interleaving of a deletion and a read'),
        Harness('two writers', closing(writing([SMALL, LARGE])), bound=None if deep else 3,
                about='interleavings of two stores with a read after each call'),
        Harness('two writers and a fault', closing(writing([SMALL], fault=True)), bound=3 if deep else 2,
                about='two stores, preemptions and faults'),
        Harness('two writers without a directory', closing(writing([SMALL], directory=False, preload=False)), bound=None if deep else 3,
                about='two stores while the directory does not exist'),
        Harness('histories', closing(histories(4 if deep else 3)), about='histories of operations of two cache objects'),
        Harness('odd keys', closing(odd_keys), about='all pairs of keys that differ only just'),
        Harness('values that cannot be stored', closing(failing_values), about='values that cannot be pickled'),
        Harness('timeouts', timeouts, about='timeouts'),
        Harness('reader of an expired entry', closing(expired_reader), finding='expired-reader'),
    ]
    return out
