"""Histories of nested transactions: what is invalidated (again) at which end."""
import os
import shutil
import subprocess
import sys
import tempfile
from mc.tx import *
from mc.custom import LEAVES, choose_tree, build, depends_on, text

ASSUMPTIONS = ['timers fire when due (their lateness is explored by the order of clock advances only)']
READER = 2
cleanup = remote.cleanup


class Sys(Tx):
    def __init__(self, ch, alias, versions, tick):
        Tx.__init__(self, ch, alias, 3, tick)
        self.level, self.delay = alias[:2], rt.TAGGING[alias].get('DELAY', 0)
        self.versions = versions
        self.depth = [0, 0]
        self.pending = [[], []]             # (version, tags) of the open transaction
        self.later = []                     # (due, version, tags)
        self.model = {v: Expect() for v in versions}
        self.keys = set()

    def fire(self):
        for due, v, tags in self.later:
            if due <= rt.clock.now:
                self.model[v].invalidate(tags)
        self.later = [x for x in self.later if x[0] > rt.clock.now]

    def do_inv(self, who, tags, version=None):
        self.inv(who, tags, version)
        self.model[version].invalidate(tags)
        if self.depth[who]:
            self.pending[who].append((version, tags))

    def do_begin(self, who):
        self.begin(who)
        self.depth[who] += 1

    def ended(self, who):
        for v, tags in self.pending[who]:
            if self.level in ('rc', 'rr', 'se'):
                self.model[v].invalidate(tags)
            if self.level in ('rc', 'ru') and self.delay:
                # nominal moments: the timer starts somewhere within the call
                self.later.append((rt.clock.now + self.delay, v, tags))
        self.pending[who] = []
        self.depth[who] = 0

    def do_finish(self, who):
        self.finish(who)
        if self.depth[who] == 1:
            self.ended(who)
        elif self.depth[who]:
            self.depth[who] -= 1

    def do_flush(self, who):
        self.flush(who)
        if self.depth[who]:
            self.ended(who)

    def do_close(self, who):
        self.close(who)
        if self.depth[who]:
            self.ended(who)

    def do_with(self, who):
        """a nested scope left by an exception"""
        class Leave(Exception):
            pass

        def body(c):
            with c.transaction:
                raise Leave()
        try:
            self.run(who, body, 'with transaction: raise')
        except Leave:
            pass

    def do_set(self, who, key, tags, version=None):
        v, ok = self.set_took_effect(who, key, tags, version)
        self.keys.add((key, version))
        if ok:
            self.model[version].store(key, v, tags, None)
        elif self.level in ('rc', 'ru'):
            raise Violation('with %s a store of %r had no effect' % (self.alias, key))

    def do_advance(self, s):
        self.advance(s)
        self.fire()

    def probe(self):
        if not self.ch.fresh():
            return
        keys = sorted(self.keys, key=repr)
        for who in (READER, 0):
            for (key, v), got in zip(keys, self.reads(who, keys)):
                self.model[v].check(key, got, MISSING, how='get(version=%s)' % v)


def one_writer(alias, depth, versions=(None,), tick=rt.TICK, style=0, step=1.25):
    def run(ch):
        s = Sys(ch, alias, versions, tick)
        s.do_set(1, 'k1', ('t',))
        s.do_set(1, 'k2', ('u', 'z'))
        s.do_begin(0)
        ops = [
            lambda: s.do_inv(0, ('t',)),
            lambda: s.do_set(1, 'k1', ('t', 'x')),
            lambda: s.do_finish(0),
            lambda: s.do_begin(0),
            lambda: s.do_inv(0, ('u', 't')),
            lambda: s.do_set(0, 'k2', ('u',)),
        ]
        if len(versions) > 1:
            ops += [lambda: s.do_inv(0, ('t',), versions[1]), lambda: s.do_set(1, 'k1', ('t',), versions[1])]
        if s.delay:
            ops.append(lambda: s.do_advance(step))
        if style == 1:
            ops += [lambda: s.do_flush(0), lambda: s.do_close(0)]
        elif style == 2:
            ops += [lambda: s.do_with(0)]
        for i in range(depth):
            ops[ch.choose(len(ops))]()
            s.probe()
        while s.depth[0]:
            s.do_finish(0)
        s.probe()
        s.do_set(1, 'k1', ('t',))
        s.do_set(1, 'k2', ('u',))
        for v in versions[1:]:
            s.do_set(1, 'k1', ('t',), v)
        if s.delay:
            s.do_advance(step * 0.8)
            s.probe()
            s.do_advance(2)
        s.probe()
        s.do_finish(0)          # a superfluous end
        s.probe()
        return repr([(k, e[2]) for v in versions for k, e in sorted(s.model[v].entries.items())])
    return run


def two_writers(alias, depth, tick=rt.TICK):
    def run(ch):
        s = Sys(ch, alias, (None,), tick)
        s.do_begin(0)
        ops = [
            lambda: s.do_inv(0, ('t',)),
            lambda: s.do_finish(0),
            lambda: s.do_begin(1),
            lambda: s.do_inv(1, ('t', 'u')),
            lambda: s.do_set(1, 'k1', ('t',)),
            lambda: s.do_finish(1),
            lambda: s.do_set(0, 'k2', ('u',)),
        ]
        if s.delay:
            ops.append(lambda: s.do_advance(1.25))
        for i in range(depth):
            ops[ch.choose(len(ops))]()
            s.probe()
        for w in (0, 1):
            while s.depth[w]:
                s.do_finish(w)
                s.probe()
        if s.delay:
            s.do_advance(3)
            s.probe()
        return repr(sorted((k, e[2]) for k, e in s.model[None].entries.items()))
    return run


def program(alias, scopes):
    """Many tags, many scopes: every subset of tags at every nesting level, in each of three versions of ending."""
    tags = ['t%d' % i for i in range(4)]

    def run(ch):
        s = Sys(ch, alias, (None, 2), rt.TICK)
        s.do_begin(0)
        for level in range(scopes):
            for t in range(3):
                c = ch.choose(3)
                if c:
                    s.do_inv(0, (tags[t + (level % 2)],), (None, 2)[c - 1])
            if level < scopes - 1:
                s.do_begin(0)
        for i, t in enumerate(tags):
            s.do_set(0, 'k%d' % i, (t,))
            s.do_set(0, 'k%d' % i, (t,), 2)
        for level in range(scopes):
            s.do_finish(0)
            s.probe()
        return repr([(v, k, e[2]) for v in (None, 2) for k, e in sorted(s.model[v].entries.items())])
    return run


def forms(alias, depth, budget, leaves):
    """Invalidations given as dependency objects of any shape, at any nesting level."""
    def run(ch):
        s = Sys(ch, alias, (None, 2), rt.TICK)
        s.do_begin(0)
        for i in range(depth):
            if ch.choose(2):
                s.do_begin(0)
            tree = choose_tree(ch, budget, leaves)
            v = (None, 2)[ch.choose(2)]
            direct = ch.choose(2)
            d = build(tree)
            s.run(0, lambda c: c.invalidate_dependency(d, v) if direct else c.invalidate_tags(d, version=v),
                  'invalidate %s v=%s' % (text(tree), v))
            s.pending[0].append((v, depends_on(tree)))
        for v in (None, 2):
            s.do_set(1, 'kt', ('t',), v)
            s.do_set(0, 'ku', ('u',), v)
            s.do_set(1, 'kx', ('x',), v)
        while s.depth[0]:
            s.do_finish(0)
            s.probe()
        if s.delay:
            for v in (None, 2):
                s.do_set(1, 'kt', ('t',), v)
                s.do_set(1, 'ku', ('u',), v)
            s.do_advance(3)
            s.probe()
        return repr([(v, k, e[2]) for v in (None, 2) for k, e in sorted(s.model[v].entries.items())])
    return run


def many(alias):
    """The number of tags of a transaction."""
    def run(ch):
        n = ch.pick(SIZES)
        s = Sys(ch, alias, (None,), rt.TICK)
        tags = ['g%d' % i for i in range(n)]
        s.do_begin(0)
        if ch.choose(2):
            s.do_inv(0, tags)
        else:
            for i, t in enumerate(tags):
                if i == n // 2:
                    s.do_begin(0)
                s.do_inv(0, (t,))
        for t in tags:
            s.do_set(1, 'k' + t, (t,))
        s.do_set(1, 'other', ('x',))
        s.probe()
        s.do_flush(0)
        s.probe()
        return n
    return run


def ending_process(ch):
    """Real processes: a program that ends before the delay has passed."""
    level = ch.pick(['READ COMMITTED', 'READ UNCOMMITTED'])
    way = ch.pick(['return', 'sys.exit', 'error', 'thread', 'running thread'])
    if not ch.fresh():
        return None
    d = tempfile.mkdtemp(prefix='mc_c06_')
    env = dict(os.environ, PYTHONPATH=rt.REPO, PYTHONDONTWRITEBYTECODE='1')

    def program(*args):
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(rt.__file__), 'exiting.py'), d] + list(args),
                             env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out, err = p.communicate()
        return p.returncode, out.decode(), err.decode()
    try:
        rc, out, err = program('write', level, way)
        if rc != {'sys.exit': 3, 'error': 1}.get(way, 0) or rc == 1 and 'as planned' not in err:
            raise Violation('the program ended with %s: %s' % (rc, err[-300:]))
        late = float(out) > 0.4
        rc, out, err = program('read', level)
        got = [k for k in out.split() if not (late and k == 'after')]
        ch.note('then readable: %s' % got)
        if rc or got != ['untouched']:
            raise Violation('%s, process ends by %s: readable afterwards are %s; %s' % (level, way, got, err[-200:]))
    finally:
        shutil.rmtree(d)
    return way


def harnesses(tier):
    deep = tier == 'thorough'
    hs = []
    remote.start(2)
    for alias in ('rc0', 'rr0', 'ser0'):
        hs.append(Harness('programs, %s' % alias, remotely(one_writer(alias, 4 if deep else 3)), about='sessions that are programs of their own'))
        hs.append(Harness('programs, two writers, %s' % alias, remotely(two_writers(alias, 4 if deep else 3)), about='sessions that are programs of their own'))
    for alias in ('rc0', 'rr0', 'rc2', 'rr2', 'ru2', 'ser0'):
        d = 5 if deep else 4 - (alias == 'ser0')
        hs.append(Harness('one writer, %s' % alias, one_writer(alias, d + (alias in ('rc0', 'rr0') and not deep)),
                          about='all histories of begin, finish, two invalidations, stores by both sessions, clock'))
        hs.append(Harness('one writer, flush and close, %s' % alias, one_writer(alias, d, style=1), about='... and flush, close'))
        hs.append(Harness('one writer, with-block, %s' % alias, one_writer(alias, d - 1, style=2), about='... left by an exception'))
        hs.append(Harness('two versions, %s' % alias, one_writer(alias, d, versions=(None, 2)), about='... in two cache versions'))
        if alias != 'ru2':
            hs.append(Harness('two writers, %s' % alias, two_writers(alias, d + (alias == 'rc0')), about='two sessions with transactions'))
    for alias in ('rch', 'rrh', 'ruh'):
        hs.append(Harness('one writer, %s' % alias, one_writer(alias, 4 if deep else 3, step=0.3), about='a delay of half a second'))
    for alias in ('rc_p', 'rr_p'):
        hs.append(Harness('another default version, %s' % alias, one_writer(alias, 4 if deep else 3, versions=(None, 1)),
                          about='the default version is 3'))
    for alias in ('rc0', 'rr0'):
        hs.append(Harness('frozen clock, %s' % alias, one_writer(alias, 4, tick=0), about='all readings of the clock are equal'))
        hs.append(Harness('forms, %s' % alias, forms(alias, 2, 3 if deep else 2, ['T', 'TU', 'U', '0'] if deep else ['T', 'U']),
                          about='two invalidations by dependency objects of any shape'))
        hs.append(Harness('number of tags, %s' % alias, many(alias), about='up to 1025 tags'))
        hs.append(Harness('nested invalidations, %s' % alias, program(alias, 3 if deep else 2), about='every assignment of tags and versions to nested scopes'))
    hs.append(Harness('process ends', ending_process, about='real processes that end before the delay has passed'))
    return hs
