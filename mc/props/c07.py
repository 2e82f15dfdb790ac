"""Histories of transactions in three sessions against a reference model of the fence."""
from mc.tx import *
from mc.conc import run_threads

ASSUMPTIONS = ['the fence is required within the life time of lock records (5 s after the last invalidation, 5 s plus the '
               'delay after the end); of several open transactions that invalidated the tag, the latest holds it']
cleanup = remote.cleanup
LIFE = 5.0
EPS = 0.2


class Fence(object):
    """What must be refused and what must be accepted, per (version, tag)."""

    def __init__(self, delay):
        self.delay = delay
        self.start = {}         # session -> clock at begin of the outermost scope
        self.order = {}         # session -> sequence number of it
        self.depth = {}
        self.touched = {}       # session -> set of (version, tag) in its open transaction
        self.holder = {}        # (version, tag) -> (session, clock of the latest invalidation)
        self.all_acquired = {}  # (version, tag) -> [(session, clock)]
        self.end = {}           # (version, tag) -> [(session, clock at end, sequence)]
        self.seq = 0
        self.began = {}         # (session, sequence number of the end) -> clock at begin

    def begin(self, s, now):
        self.seq += 1
        self.depth[s] = self.depth.get(s, 0) + 1
        if self.depth[s] == 1:
            self.start[s], self.order[s], self.touched[s] = now, self.seq, set()

    def inv(self, s, tags, version, now):
        self.seq += 1
        if self.depth.get(s):
            for t in tags:
                self.touched[s].add((version, t))
                self.holder[version, t] = (s, now)
                self.all_acquired.setdefault((version, t), []).append((s, now))

    def finish(self, s, now):
        self.seq += 1
        self.depth[s] -= 1
        if self.depth[s] == 0:
            self.began[s, self.seq] = self.start[s]
            for vt in self.touched[s]:
                self.end.setdefault(vt, []).append((s, now, self.seq))
            self.touched[s] = set()

    def holds(self, s, vt):
        return bool(self.depth.get(s)) and vt in self.touched[s]

    def ended_at_once(self, s, vt):
        return any(r == s and e <= self.began.get((r, q), 0) for r, e, q in self.end.get(vt, []))

    def must_refuse(self, s, tags, version, now):
        for t in tags:
            vt = version, t
            if vt in self.holder:
                h, at = self.holder[vt]
                if h != s and self.holds(h, vt) and now < at + LIFE - EPS:
                    return 'session %d holds %r' % (h, t)
            if vt in self.end:
                r, e, q = self.end[vt][-1]
                if r != s and now < e + LIFE + max(self.delay, 1) - EPS:
                    if self.depth.get(s):
                        if self.order[s] < q:
                            return 'session %d ended with %r after this transaction had begun' % (r, t)
                        if self.start[s] <= e + self.delay - EPS:
                            return 'session %d ended with %r less than the delay before this transaction' % (r, t)
                    elif now <= e + self.delay - EPS:
                        return 'session %d ended with %r less than the delay ago' % (r, t)
        return None

    def must_accept(self, s, tags, version, now, tick):
        start = self.start[s] if self.depth.get(s) else now
        for t in tags:
            vt = version, t
            for h, at in self.all_acquired.get(vt, []):
                if h != s and self.holds(h, vt) and now < at + LIFE + EPS:
                    return False
                if h != s and tick == 0 and now < at + LIFE + EPS and self.ended_at_once(h, vt):
                    return False        # a transaction that lasted no time at all may count as unfinished
            for r, e, q in self.end.get(vt, []):
                if r == s or now > e + LIFE + max(self.delay, 1) + EPS:
                    continue
                if self.depth.get(s) and self.order[s] < q:
                    return False
                if start <= e + self.delay + (EPS if self.delay else 0) or tick == 0 and start <= e + self.delay:
                    return False
        return True


class Sys(Tx):
    def __init__(self, ch, alias, tick):
        Tx.__init__(self, ch, alias, 3, tick)
        self.tick = tick
        self.f = Fence(rt.TAGGING[alias].get('DELAY', 0))

    def do_begin(self, s):
        if self.f.depth.get(s, 0) >= 2:
            raise Prune()
        self.begin(s)
        self.f.begin(s, rt.clock.now)

    def do_inv(self, s, tags, version=None):
        self.inv(s, tags, version)
        self.f.inv(s, tags, version, rt.clock.now)

    def do_finish(self, s):
        if not self.f.depth.get(s):
            raise Prune()
        self.finish(s)
        self.f.finish(s, rt.clock.now)

    def attempt(self, s, key, tags, version=None):
        before, v, after = self.try_set(s, key, tags, version)
        now = rt.clock.now
        why = self.f.must_refuse(s, tags, version, now)
        what = 'session %d, store of %r with tags %s, version %s' % (s, key, tags, version)
        if after == v:
            if why:
                raise Violation('%s took effect although %s' % (what, why))
            return True
        if self.f.must_accept(s, tags, version, now, self.tick):
            raise Violation('%s was refused, but no other session holds the tag or ended too lately' % what)
        if after != before:
            raise Violation('%s was refused, but the entry changed from %r to %r' % (what, before, after))
        return False

    def try_set(self, s, key, tags, version):
        v = self.value(key)

        def body(c):
            before = c.get(key, MISSING, version, abort=True)
            c.set(key, v, tuple(tags), 100000, version)
            return before, v, c.get(key, MISSING, version, abort=True)
        r = self.run(s, body, 'store %s=%s {%s} v=%s' % (key, v, ','.join(map(str, tags)), version))
        self.ch.note('        %s' % ('took effect' if r[2] == v else 'refused'))
        return r


def fence(alias, depth, ops, warm=True, tick=rt.TICK, versions=(None,), first=()):
    def run(ch):
        s = Sys(ch, alias, tick)
        if warm:
            for v in versions:
                for i in range(3):
                    s.set(i, 'kt%d' % i, ('t',), v)
                s.set(0, 'ku', ('u',), v)
        for op in first:
            op(s)
        for i in range(depth):
            c = ch.choose(len(ops) + 1)
            if c == 0:
                break
            ops[c - 1](s)
        out = []
        for v in versions:
            for i in range(3):
                out.append(s.attempt(i, 'kt%d' % i, ('t',), v))
                out.append(s.attempt(i, 'kb%d' % i, ('u', 't'), v))
                out.append(s.attempt(i, 'ku', ('u',), v))
                out.append(s.attempt(i, 'kx', ('x',), v))
        return tuple(out)
    return run


def B(i):
    return lambda s: s.do_begin(i)


def F(i):
    return lambda s: s.do_finish(i)


def I(i, *tags, **kw):
    return lambda s: s.do_inv(i, tags, kw.get('version'))


def A(sec):
    return lambda s: s.advance(sec)


def S(i, key, *tags):
    return lambda s: s.attempt(i, key, tags)


BASIC = [B(0), I(0, 't'), F(0), B(1), B(2), F(1), I(1, 't', 'u'), F(2)]


def died(alias, tick):
    """A writer that never ends: everybody else may store again after seconds."""
    def run(ch):
        s = Sys(ch, alias, tick)
        s.do_begin(0)
        if ch.choose(2):
            s.do_begin(0)
        s.do_inv(0, [('t',), ('t', 'u')][ch.choose(2)])
        if ch.choose(2):
            s.do_begin(1)
        wait = ch.pick([0.5, 4.5, 5.5, 20])
        s.advance(wait)
        out = [s.attempt(1, 'k', ('t',)), s.attempt(2, 'k', ('t',)), s.attempt(1, 'k', ('u',))]
        if wait > LIFE and not all(out):
            raise Violation('the lock of a dead writer has not vanished after %s s' % wait)
        return tuple(out)
    return run


def racing(alias, split):
    """The writer against a storing session, at the granularity of backend operations."""
    def run(ch):
        rt.fresh()
        rt.world.split = split
        coll = CacheCollection()
        seq = [0]
        marks = {}
        if ch.choose(2):
            coll[alias].set('k', 'old', ('t', 'u'), 1000)
        in_tx = ch.choose(2)
        nested = ch.choose(2)

        def mark(name):
            seq[0] += 1
            marks[name] = seq[0]
            ch.note('-- %s' % name)

        def writer():
            c = coll[alias]
            c.transaction.begin()
            if nested:
                c.transaction.begin()
            rt.point('call')
            c.invalidate_tags('t')
            mark('invalidated')
            for i in range(2):
                got = c.get('k', None, abort=True)
                mark('writer reads %r' % (got,))
                if got is not None:
                    raise Violation('%r is readable within the transaction that has invalidated it' % (got,))
                rt.point('call')
            if nested:
                c.transaction.finish()
            rt.point('call')
            mark('finishing')
            c.transaction.finish()
            mark('finished')

        def storer():
            c = coll[alias]
            if in_tx:
                c.transaction.begin()
                mark('storer began')
            rt.point('call')
            mark('storing')
            c.set('k', 'new', ('u', 't'), 1000)
            mark('stored')
            got = c.get('k', None, abort=True)
            mark('read %r' % got)
            marks['got'] = got
            if in_tx:
                c.transaction.finish()
        run_threads(ch, [writer, storer], ['W', 'S'])
        if marks['got'] == 'new' and marks['storing'] > marks['invalidated'] and marks['stored'] < marks['finishing']:
            raise Violation('a store begun and finished while another session held the tag took effect')
        if in_tx and marks['got'] == 'new' and marks['storing'] > marks['invalidated'] \
                and marks['storer began'] < marks['finishing']:
            raise Violation('a store in a transaction older than the end of the writer took effect')
        if marks['storing'] > marks['finished'] and (not in_tx or marks['storer began'] > marks['finished']) \
                and marks['got'] != 'new':
            raise Violation('a store begun after the end of the writer was refused')
        if marks['storing'] > marks['invalidated'] and marks['got'] == 'old':
            raise Violation('the refused store brought back the old content')
        return (in_tx, nested, marks['got'])
    return run


def sizes(alias, numbers, warm):
    """A transaction that invalidates n tags at once, or one by one, fences each of them."""
    def run(ch):
        n = ch.pick(numbers)
        s = Sys(ch, alias, rt.TICK)
        tags = ['t%d' % i for i in range(n)]
        step = ch.pick([n, 1, 7])
        if step != n and n > 130 or step == 7 and n < 8:
            raise Prune()
        some = sorted(set(tags[i] for i in (0, 1, 7, n // 2, n - 2, n - 1) if 0 <= i < n)) if n > 20 else tags
        if warm:
            s.set(1, 'all', tags)
        s.do_begin(0)
        s.do_begin(1)
        for i in range(0, n, step):
            s.do_inv(0, tags[i:i + step])

        def attempts(who, ended):
            out = [s.attempt(who, 'all', tags)]
            for t in some:
                out.append(s.attempt(who, 'k' + t, (t,)))
            out.append(s.attempt(who, 'free', ['f%d' % i for i in range(n)]))
            if any(out[:-1]) and not ended or not out[-1]:
                raise Violation('the fence of %d tags has holes: %r' % (n, out))
            return tuple(out)
        r = attempts(2, False) + attempts(1, False)
        s.do_finish(0)
        r += attempts(1, False)
        rt.clock.advance(s.f.delay + 0.5)
        return r + attempts(2, True)
    return run


def odd_names(alias, neighbours=False):
    """The fence around one tag does not reach another one that differs only just."""
    def run(ch):
        s = Sys(ch, alias, rt.TICK)
        i = ch.choose(len(NAMES))
        j = (i + 1) % len(NAMES) if neighbours else ch.choose(len(NAMES))
        if i == j:
            raise Prune()
        a, b = NAMES[i], NAMES[j]
        s.do_begin(0)
        s.do_begin(1)
        s.do_inv(0, (a,))
        out = [s.attempt(2, 'ka', (a,)), s.attempt(2, 'kb', (b,)), s.attempt(1, 'kb', (b,)), s.attempt(1, 'kab', (b, a))]
        s.do_finish(0)
        out += [s.attempt(1, 'ka', (a,)), s.attempt(1, 'kb', (b,))]
        rt.clock.advance(s.f.delay + 0.5)
        out += [s.attempt(2, 'ka', (a,)), s.attempt(2, 'kab', (b, a))]
        return tuple(out)
    return run


def harnesses(tier):
    deep = tier == 'thorough'
    d = 6 if deep else 5
    remote.start(2)
    hs = [
        Harness('programs, rr0', remotely(fence('rr0', d - 1, [B(0), I(0, 't'), F(0), B(1), I(1, 't'), B(2)])), about='sessions that are programs of their own'),
        Harness('programs, rr2', remotely(fence('rr2', d - 1, [B(0), I(0, 't'), F(0), B(1), A(1.25)])), about='sessions that are programs of their own'),
        Harness('programs, odd names', remotely(odd_names('rr0', True)), about='every tag, sessions that are programs of their own'),
        Harness('rr0', fence('rr0', d, BASIC), about='all histories of up to %d operations of three sessions' % d),
        Harness('rr2', fence('rr2', d, [B(0), I(0, 't'), F(0), B(1), A(1.25), B(2), I(1, 't'), F(1)]), about='... with delay'),
        Harness('rrh', fence('rrh', d, [B(0), I(0, 't'), F(0), B(1), A(0.3), B(2)]), about='... with a delay of half a second'),
        Harness('ser0', fence('ser0', d - 1, BASIC), about='... SERIALIZABLE'),
        Harness('ser2', fence('ser2', d - 1, BASIC + [A(1.25)]), about='... with delay'),
        Harness('odd names', odd_names('rr0'), about='all pairs of %d tags that differ only just' % len(NAMES)),
        Harness('cold', fence('rr0', d - 1, BASIC, warm=False), about='... no tag version exists'),
        Harness('frozen', fence('rr0', d - 1, BASIC, tick=0), about='... all clock readings equal'),
        Harness('ticking', fence('rr0', d + 1, [B(0), I(0, 't'), F(0), A(0.5), B(1)], tick=0),
                about='... a clock that advances explicitly only'),
        Harness('ticking, two writers', fence('rr0', d, [B(0), I(0, 't'), F(0), A(0.5), B(1), I(1, 't'), F(1)], tick=0),
                about='... a clock that advances explicitly only'),
        Harness('ageing', fence('rr0', d, [B(0), I(0, 't'), F(0), B(1), A(3), A(5.5)]), about='... with lock records that expire'),
        Harness('ageing, delay', fence('rr2', d, [B(0), I(0, 't'), F(0), B(1), A(3), A(8)]), about='... with lock records that expire'),
        Harness('long delay', fence('rr12', d, [B(1), A(7), A(4.5), B(0), I(0, 't')],
                                    first=[B(0), I(0, 't'), F(0)]),
                about='... a delay longer than the life time of lock records'),
        Harness('versions', fence('rr0', d - 1, [B(0), I(0, 't', version=2), I(0, 't', version=3), F(0), B(1)],
                                  versions=(2, 3)), about='... two cache versions'),
        Harness('stores between', fence('rr0', d, [B(0), I(0, 't'), F(0), B(1), S(0, 'kt1', 't'), S(1, 'kt1', 't')]),
                about='... with stores in between'),
        Harness('after some ended', fence('rr0', d - 1, [B(0), I(0, 't'), F(0), B(1), I(1, 't'), F(1), B(2), I(2, 'u'), F(2)]),
                about='... more combinations'),
    ]
    numbers = [1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 31, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257, 500, 501, 513, 1000, 1001, 1025]
    for alias, warm in (('rr0', True), ('ser2', False)):
        hs.append(Harness('sizes, %s' % alias, sizes(alias, numbers, warm), about='numbers of tags up to 1025'))
    for alias in ('rr0', 'rr2', 'ser0'):
        hs.append(Harness('dead writer, %s' % alias, died(alias, rt.TICK), jobs=1, about='a writer that never ends'))
    for alias in ('rr0', 'ser0'):
        for split in (False, True):
            hs.append(Harness('race, %s%s' % (alias, ', per key' if split else ''), racing(alias, split),
                              bound=5 if deep else 3, about='writer and storing session, all schedules within the bound'))
    return hs
