"""Writers and readers on a versioned database with snapshots and replication lag, all interleavings."""
from mc.conc import *
from mc import remote

cleanup = remote.cleanup

ASSUMPTIONS = [
    'readers compute and store within their own cache transaction, begun before the database snapshot is taken',
    'a reader stores within the life time of lock records (5 s) after the end of the writer',
    'a session reads its own commits, replicas lag behind by less than the configured delay',
    'backend operations are atomic per key',
    'two writers of one tag do not end at overlapping moments, nor within the delay (recorded findings)',
]


class Database(object):
    """Rows with committed versions.  A transaction sees the snapshot at its begin, and its own writes."""

    def __init__(self, ch, lag=0):
        self.ch = ch
        self.lag = lag
        self.commits = []                   # (clock, session, {row: value})

    def begin(self, who):
        rt.point('db')
        t = DbTransaction(self, who)
        self.ch.note('%s: db begin, sees %r' % (who, t.snapshot))
        return t

    def state(self, who=None, now=None):
        rows = {'x': 0, 'y': 0}
        for at, session, w in self.commits:
            if now is None or session == who or at <= now - self.lag:
                rows.update(w)
        return rows


class DbTransaction(object):
    def __init__(self, db, who):
        self.db, self.who = db, who
        self.snapshot = db.state(who, rt.clock.now) if db.lag else db.state()
        self.own = {}

    def read(self):
        rt.point('db')
        v = dict(self.snapshot, **self.own)
        return (v['x'], v['y'])

    def write(self, row, value):
        rt.point('db')
        self.own[row] = value
        self.db.ch.note('%s: db write %s=%s' % (self.who, row, value))

    def commit(self):
        rt.point('db')
        if self.own:
            self.db.commits.append((rt.clock.now, self.who, self.own))
        self.db.ch.note('%s: db commit %r' % (self.who, self.own))

    def rollback(self):
        rt.point('db')
        self.db.ch.note('%s: db rollback' % self.who)


class Sys(object):
    def __init__(self, ch, alias, tick=rt.TICK, lag=0, split=False):
        rt.fresh(tick)
        rt.world.split = split
        self.ch = ch
        self.alias = alias
        self.coll = CacheCollection()
        self.db = Database(ch, lag)
        self.ended = []                     # what has been committed by writers that have ended: [(row, value)]
        self.rolled_back = []
        self.finishing = [0]
        self.serial_ends = True

    @property
    def c(self):
        return self.coll[self.alias]

    def note(self, text):
        if self.ch.log is not None:
            self.ch.note('%.4f %s' % (rt.clock.now - rt.BASE, text))

    def checked(self, who, ended, got, how):
        """got was read by a call that began when the writers `ended` had ended."""
        if got is None:
            return
        got = dict(zip('xy', got))
        for row, value in ended:
            if got[row] < value:
                raise Violation('%s: %s returned data with %s=%s although the writer that committed %s=%s had ended before'
                                % (who, how, row, got[row], row, value))
        for row, value in self.rolled_back:
            if got[row] == value:
                raise Violation('%s: %s returned data with %s=%s, which was rolled back by a writer that had ended before'
                                % (who, how, row, value))

    def get(self, who, key, in_call=None):
        rt.point('call')
        ended = list(self.ended)
        v = self.c.get(key) if in_call is None else in_call()
        self.note('%s: get %s -> %r' % (who, key, v))
        self.checked(who, ended, v, 'get of %s' % key)
        return v

    def reader(self, who, key='k', tags=('t',), again=False, how=0, nested=False):
        for i in range(1 + again):
            rt.point('call')
            self.c.transaction.begin()
            self.note('%s: begin' % who)
            if nested:
                self.c.transaction.begin()
            tx = self.db.begin(who)
            if how == 2:
                rt.point('call')
                ended = list(self.ended)
                box = []

                def compute():
                    box.append(tx.read())
                    return box[0]
                v = self.c.get_or_set_callback(key, compute, tags, 1000)
                self.note('%s: get_or_set -> %r' % (who, v))
                if not box:
                    self.checked(who, ended, v, 'get_or_set_callback of %s' % key)
            else:
                v = self.get(who, key) if how == 0 else \
                    self.get(who, key, lambda: self.c.get_many([key, 'other']).get(key))
                if v is None:
                    v = tx.read()
                    rt.point('call')
                    self.note('%s: set %s=%r {%s}' % (who, key, v, ','.join(tags)))
                    self.c.set(key, v, tags, 1000)
            if nested:
                self.c.transaction.finish()
            tx.commit()
            rt.point('call')
            self.c.transaction.finish()
            self.note('%s: end' % who)

    def writer(self, who, row='x', value=1, tags=('t',), order='before', scope=None, own=False, rollback=False,
               long=None, how='finish', twice=False):
        rt.point('call')
        self.c.transaction.begin()
        self.note('%s: begin' % who)
        tx = self.db.begin(who)
        if scope:
            self.c.transaction.begin()
        if order in ('before', 'both'):
            self.invalidate(who, tags)
        if long == 'before write':
            rt.clock.advance(6)
        if scope == 'inv only' and order == 'before':
            rt.point('call')
            self.c.transaction.finish()
        tx.write(row, value)
        if order in ('after', 'both'):
            self.invalidate(who, tags)
        if twice:
            tx.write(row, value + 10)
            value += 10
        if own:
            rt.point('call')
            v = self.c.get('k')
            if v is None:
                v = tx.read()
                self.note('%s: set own %r' % (who, v))
                self.c.set('k', v, tags, 1000)
        if scope and not (scope == 'inv only' and order == 'before'):
            rt.point('call')
            self.c.transaction.finish()
        if long == 'before commit':
            self.note('%s: 6 s pass' % who)
            rt.clock.advance(6)
        if rollback:
            tx.rollback()
        else:
            tx.commit()
        if long == 'after commit':
            rt.clock.advance(6)
        if self.serial_ends:
            rt.point('call')
            while self.finishing[0]:
                rt.sched.block('end of the other writer', lambda: not self.finishing[0])
        self.finishing[0] = 1
        self.note('%s: finish' % who)
        if how == 'finish':
            self.c.transaction.finish()
        elif how == 'flush':
            self.c.transaction.flush()
        elif how == 'close':
            self.c.close()
        self.finishing[0] = 0
        self.note('%s: end' % who)
        if rollback:
            self.rolled_back.append((row, value))
        else:
            self.ended.append((row, value))

    def invalidate(self, who, tags):
        rt.point('call')
        self.note('%s: invalidate %s' % (who, ','.join(tags)))
        self.c.invalidate_tags(*tags)

    def final(self, keys=('k',)):
        """Everything has ended: what is readable is what the database says."""
        now = self.db.state()
        s = rt.sessions(5)[4]
        for k in keys:
            got = s.call(lambda: self.coll[self.alias].get(k, None, abort=True))
            self.note('finally %s is %r, the database has %r' % (k, got, now))
            if got is not None and got != (now['x'], now['y']):
                raise Violation('after all transactions have ended %s is %r, but the database has %r' % (k, got, now))
        return tuple(s.call(lambda: self.coll[self.alias].get(k, None, abort=True)) for k in keys)


def warmed(s, warm):
    if warm:
        s.c.set('k', (0, 0), ('t',), 1000)


WRITERS = {
    'inv before write': dict(order='before'),
    'inv after write': dict(order='after'),
    'inv before and after': dict(order='both'),
    'in savepoint': dict(order='after', scope='all'),
    'savepoint closed before write': dict(order='before', scope='inv only'),
    'own entry': dict(order='before', own=True),
    'own entry, write again': dict(order='after', own=True, twice=True),
    'rollback': dict(order='before', own=True, rollback=True),
    'rollback, savepoint': dict(order='after', own=True, rollback=True, scope='all'),
    'flush': dict(order='before', how='flush', scope='all'),
    'close': dict(order='after', how='close'),
    'two tags': dict(order='before', tags=('t', 'z')),
}


def one_writer(alias, variant, readers=1, tick=rt.TICK, split=False, **rkw):
    kw = WRITERS[variant]

    def run(ch):
        s = Sys(ch, alias, tick, split=split)
        warmed(s, ch.choose(2))
        bodies = [lambda: s.writer('W', **kw), lambda: s.reader('R', **rkw)]
        if readers == 2:
            bodies.append(lambda: s.reader('Q', **rkw))
        run_threads(ch, bodies, ['W', 'R', 'Q'][:len(bodies)])
        return s.final()
    return run


def kinds(alias, tick=rt.TICK):
    """Every kind of reader against every kind of writer."""
    names = sorted(WRITERS)

    def run(ch):
        s = Sys(ch, alias, tick)
        kw = WRITERS[names[ch.choose(len(names))]]
        rkw = [dict(how=0), dict(how=1), dict(how=2), dict(again=True), dict(nested=True), dict(tags=('t', 'u'))][ch.choose(6)]
        warmed(s, ch.choose(2))
        run_threads(ch, [lambda: s.writer('W', **kw), lambda: s.reader('R', **rkw)], ['W', 'R'])
        return s.final()
    return run


def long_writer(alias, where):
    def run(ch):
        s = Sys(ch, alias)
        warmed(s, ch.choose(2))
        kw = dict(order=ch.pick(['before', 'after']), long=where)
        run_threads(ch, [lambda: s.writer('W', **kw), lambda: s.reader('R')], ['W', 'R'])
        return s.final()
    return run


def two_writers(alias, tick=rt.TICK, same_row=False):
    def run(ch):
        s = Sys(ch, alias, tick)
        a = dict(order=ch.pick(['before', 'after']))
        b = dict(order=ch.pick(['before', 'after']))
        warmed(s, ch.choose(2))
        run_threads(ch, [lambda: s.writer('A', **a), lambda: s.writer('B', row='y', **b), lambda: s.reader('R')],
                    ['A', 'B', 'R'])
        return s.final()
    return run


def reader_writes(alias):
    """The reader invalidates the same tag itself in its transaction, or had an earlier transaction that did."""
    def run(ch):
        s = Sys(ch, alias)
        kind = ch.choose(3)
        warmed(s, ch.choose(2))

        def reader():
            c = s.c
            if kind == 0:
                rt.point('call')
                c.transaction.begin()
                s.invalidate('R', ('t',))
                while s.finishing[0]:
                    rt.sched.block('end of the other writer', lambda: not s.finishing[0])
                s.finishing[0] = 1
                c.transaction.finish()
                s.finishing[0] = 0
                s.reader('R')
            else:
                rt.point('call')
                c.transaction.begin()
                s.note('R: begin')
                tx = s.db.begin('R')
                if kind == 1:
                    s.invalidate('R', ('t',))
                v = s.get('R', 'k')
                if v is None:
                    v = tx.read()
                    rt.point('call')
                    s.note('R: set %r' % (v,))
                    c.set('k', v, ('t',), 1000)
                if kind == 2:
                    s.invalidate('R', ('t',))
                tx.commit()
                rt.point('call')
                while s.finishing[0]:
                    rt.sched.block('end of the other writer', lambda: not s.finishing[0])
                s.finishing[0] = 1
                c.transaction.finish()
                s.finishing[0] = 0
        run_threads(ch, [lambda: s.writer('W'), reader], ['W', 'R'])
        return s.final()
    return run


def lagging(alias, lag, variants=('inv before write', 'inv after write', 'two tags'), step=0.7):
    """A replica that lags behind; time passes in steps at any moment."""
    def run(ch):
        s = Sys(ch, alias, lag=lag)
        kw = WRITERS[ch.pick(variants)]
        warmed(s, ch.choose(2))

        def passing():
            for i in range(4):
                rt.point('time')
                rt.clock.advance(step)
                s.note('%s s pass' % step)
        run_threads(ch, [lambda: s.writer('W', **kw), lambda: s.reader('R'), passing], ['W', 'R', 'clock'],
                    free=('time',))
        rt.clock.advance(3)
        return s.final()
    return run


def coarse(alias, variant, steps=2, **rkw):
    """A clock that stands still but for a few moments: a reader can begin at the very instant at which the writer ends."""
    kw = WRITERS[variant]

    def run(ch):
        s = Sys(ch, alias, 0)
        warmed(s, ch.choose(2))

        def passing():
            for i in range(steps):
                rt.point('time')
                rt.clock.advance(0.4)
                s.note('0.4 s pass')
        run_threads(ch, [lambda: s.writer('W', **kw), lambda: s.reader('R', **rkw), passing], ['W', 'R', 'clock'],
                    free=('time',))
        return s.final()
    return run


def composite(alias):
    """The reader stores an entry that depends on the tag through a fragment only."""
    def run(ch):
        s = Sys(ch, alias)
        kw = dict(order=ch.pick(['before', 'after']))
        warm = ch.choose(3)
        if warm:
            s.c.set('f', (0, 0), ('t',), 1000)
        if warm == 2:
            s.c.get('k')
            s.c.get('f')
            s.c.set('k', (0, 0), ('u',), 1000)

        def reader():
            c = s.c
            rt.point('call')
            c.transaction.begin()
            tx = s.db.begin('R')
            v = s.get('R', 'k')
            if v is None:
                f = s.get('R', 'f')
                if f is None:
                    f = tx.read()
                    rt.point('call')
                    c.set('f', f, ('t',), 1000)
                    s.note('R: set f %r' % (f,))
                rt.point('call')
                s.note('R: set k %r' % (f,))
                c.set('k', f, ('u',), 1000)
            tx.commit()
            rt.point('call')
            c.transaction.finish()
        run_threads(ch, [lambda: s.writer('W', **kw), reader], ['W', 'R'])
        return s.final(('k', 'f'))
    return run


# ------------------------------------------------------------------------------------------------ recorded findings

def overlapping_ends(ch):
    """A and B hold t; A's end time is older than B's, but A's record is written last."""
    s = Sys(ch, 'rr0')
    s.serial_ends = False
    a, b, r = rt.sessions(3)
    s.c.set('k', (0, 0), ('t',), 1000)
    b.call(lambda: s.c.transaction.begin())
    b.call(lambda: s.c.invalidate_tags('t'))
    a.call(lambda: s.c.transaction.begin())
    a.call(lambda: s.c.invalidate_tags('t'))
    state = {'n': 0}

    def hook(op, key):
        # within A.finish(), before its first write: the reader begins, B commits and ends
        if state['n'] == 0:
            state['n'] = 1
            r.call(lambda: s.c.transaction.begin())
            state['tx'] = DbTransaction(s.db, 'R')
            s.db.commits.append((rt.clock.now, 'B', {'y': 1}))
            b.call(lambda: s.c.transaction.finish())
    rt.world.hook = hook
    try:
        a.call(lambda: s.c.transaction.finish())
    finally:
        rt.world.hook = None
    v = tuple(state['tx'].snapshot[x] for x in 'xy')
    r.call(lambda: s.c.set('k', v, ('t',), 1000))
    r.call(lambda: s.c.transaction.finish())
    return s.final()


def end_within_delay(ch):
    """A commits and ends; B, which invalidated the tag as well, ends within the delay, and its next transaction reads the
    replica that does not have A's data yet."""
    s = Sys(ch, 'rr2', lag=1.9)
    a, b = rt.sessions(2)
    s.c.set('k', (0, 0), ('t',), 1000)
    a.call(lambda: s.c.transaction.begin())
    a.call(lambda: s.c.invalidate_tags('t'))
    s.db.commits.append((rt.clock.now, 'A', {'x': 1}))
    a.call(lambda: s.c.transaction.finish())
    rt.clock.advance(0.5)
    b.call(lambda: s.c.transaction.begin())
    b.call(lambda: s.c.invalidate_tags('t'))
    b.call(lambda: s.c.transaction.finish())
    rt.clock.advance(0.5)
    b.call(lambda: s.c.transaction.begin())
    snap = DbTransaction(s.db, 'B').snapshot
    b.call(lambda: s.c.set('k', (snap['x'], snap['y']), ('t',), 1000))
    b.call(lambda: s.c.transaction.finish())
    rt.clock.advance(5)
    return s.final()


def programs(alias):
    """Writer and reader are two real programs; all interleavings of their steps."""
    def run(ch):
        rt.fresh()
        w, r = remote.Remote(0, alias), remote.Remote(1, alias)
        try:
            return body(ch, w, r)
        finally:
            w.sock.close()
            r.sock.close()

    def body(ch, w, r):
        local = CacheCollection()[alias]
        db = {'x': 0}
        inv, commits, extra = ch.choose(3), ch.choose(2), ch.choose(3)
        seen = {}

        def change():
            seen['w'] = db['x'] + 1
            if extra == 1:          # the writer stores what it sees itself
                w.set('k', seen['w'], ('t',), 1000)

        def end():
            if commits:
                db['x'] = seen['w']

        def snapshot():
            seen['r'] = db['x']

        def compute():
            if r.get('k', MISSING) == MISSING:
                r.set('k', seen['r'], ('t',), 1000)
        writer = [('begins', w.transaction.begin), ('changes', change), ('commits' if commits else 'rolls back', end),
                  ('ends', w.transaction.finish)]
        writer.insert(inv + 1, ('invalidates', lambda: w.invalidate_tags('t')))
        reader = [('begins', r.transaction.begin), ('takes a snapshot', snapshot), ('computes', compute), ('ends', r.transaction.finish)]
        if extra == 2:
            w.set('k', 0, ('t',), 1000)
        todo = [('writer', writer), ('reader', reader)]
        while todo:
            name, steps = todo[ch.choose(len(todo))]
            what, step = steps.pop(0)
            ch.note('the %s %s' % (name, what))
            step()
            todo = [x for x in todo if x[1]]
            if not writer:
                for c in (local, w, r):
                    got = c.get('k', MISSING, abort=True)
                    if got is not MISSING and got != db['x']:
                        raise Violation('%r is readable after the end of the transaction that has made it %r' % (got, db['x']))
        r.transaction.begin()
        r.set('k', db['x'], ('t',), 1000)
        r.transaction.finish()
        return w.get('k', MISSING, abort=True) is MISSING
    return run


def harnesses(tier):
    remote.start(2)
    deep = tier == 'thorough'
    b = 1 if deep else 0
    hs = [Harness('overlapping ends', overlapping_ends, finding='overlapping-ends'),
          Harness('end within the delay', end_within_delay, finding='end-within-delay')]
    hs.append(Harness('programs, rr0', programs('rr0'), about='writer and reader are programs of their own'))
    if deep:
        hs.append(Harness('programs, ser0', programs('ser0'), about='writer and reader are programs of their own'))
    for variant in sorted(WRITERS):
        hs.append(Harness('rr0, %s' % variant, one_writer('rr0', variant), bound=3 + b,
                          about='one writer, one reader transaction, all schedules within the preemption bound'))
    hs += [
        Harness('rr0, two reader transactions', one_writer('rr0', 'inv before write', again=True), bound=3 + b, about='...'),
        Harness('rr0, two readers', one_writer('rr0', 'inv after write', 2), bound=2 + b, about='three threads'),
        Harness('rr0, per key', one_writer('rr0', 'two tags', split=True), bound=3 + b, about='multi-key operations key by key'),
        Harness('rr0, frozen clock', one_writer('rr0', 'inv before write', tick=0), bound=3 + b, about='coarse clock'),
        Harness('rr0, frozen clock, after', one_writer('rr0', 'inv after write', tick=0, again=True), bound=2 + b, about='coarse clock'),
        Harness('rr0, ticking clock', coarse('rr0', 'inv before write'), bound=2 + b, about='clock that advances at two moments'),
        Harness('rr0, ticking clock, again', coarse('rr0', 'own entry', 1, again=True), bound=1 + b,
                about='clock that advances at one moment, two reader transactions'),
        Harness('ser0', one_writer('ser0', 'inv after write'), bound=3 + b, about='SERIALIZABLE'),
        Harness('rr2', one_writer('rr2', 'inv after write', again=True), bound=2 + b, about='delay without lag'),
        Harness('kinds, rr0', kinds('rr0'), bound=1 + b, about='all kinds of readers and writers'),
        Harness('two writers, rr0', two_writers('rr0'), bound=2 + b if deep else 1, about='two writers on one tag, one reader'),
        Harness('two writers, frozen', two_writers('rr0', 0), bound=1 + b, about='coarse clock'),
        Harness('reader writes', reader_writes('rr0'), bound=2 + b, about='the reader invalidates the tag as well'),
        Harness('composite', composite('rr0'), bound=2 + b, about='dependency inherited from a fragment'),
    ]
    for alias, lag in (('rr2', 1.9), ('ser2', 1.0)):
        hs.append(Harness('lag, %s' % alias, lagging(alias, lag), bound=2 if deep else 1, about='replication lag, passing time'))
    hs.append(Harness('lag, rrh', lagging('rrh', 0.4, ('inv after write',), 0.2), bound=2 if deep else 1, about='a lag of less than a second'))
    for where in ('before write', 'before commit', 'after commit'):
        hs.append(Harness('long writer, %s' % where, long_writer('rr0', where), bound=3 + b, about='lock expires before the end'))
    return hs
