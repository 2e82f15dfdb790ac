"""Sequential histories of transactions in several sessions."""
from mc.sut import *
from mc import remote

_remote = [None]            # the list of sessions in other programs, while such an execution runs


def remotely(run):
    """Every session of the execution is a program of its own (or a process of it)."""
    def wrapped(ch):
        _remote[0] = []
        try:
            return run(ch)
        finally:
            for r in _remote[0]:
                r.sock.close()
            _remote[0] = None
    return wrapped


class Tx(object):
    """n sessions (threads) on one alias; operations run one after the other, each in its session's thread."""

    def __init__(self, ch, alias, n, tick=rt.TICK):
        rt.fresh(tick)
        self.ch = ch
        self.alias = alias
        self.coll = CacheCollection()
        self.remote = _remote[0] is not None
        if self.remote:
            self.s = [remote.Remote(i % 2, alias) for i in range(n)]
            _remote[0].extend(self.s)
        else:
            self.s = rt.sessions(n)
        self.n = 0

    def value(self, key):
        self.n += 1
        return '%s.%d' % (key, self.n)

    def run(self, who, fn, text=None):
        if text and self.ch.log is not None:
            self.ch.note('%.4f S%d: %s' % (rt.clock.now - rt.BASE, who, text))
        if self.remote:
            return fn(self.s[who])
        return self.s[who].call(lambda: fn(self.coll[self.alias]))

    def begin(self, who):
        self.run(who, lambda c: c.transaction.begin() and None, 'begin')

    def finish(self, who):
        self.run(who, lambda c: c.transaction.finish(), 'finish')

    def flush(self, who):
        self.run(who, lambda c: c.transaction.flush(), 'flush')

    def close(self, who):
        self.run(who, lambda c: c.close(), 'close')

    def inv(self, who, tags, version=None):
        self.run(who, lambda c: c.invalidate_tags(*tags, version=version), 'invalidate %s v=%s' % (','.join(map(str, tags)), version))

    def set(self, who, key, tags, version=None, value=None, timeout=100000):
        v = value or self.value(key)
        self.run(who, lambda c: c.set(key, v, tuple(tags), timeout, version),
                 'set %s=%s {%s} v=%s' % (key, v, ','.join(map(str, tags)), version))
        return v

    def set_took_effect(self, who, key, tags, version=None, timeout=100000):
        """Stores, reads back: (value, whether it is there now)."""
        v = self.value(key)

        def body(c):
            c.set(key, v, tuple(tags), timeout, version)
            return c.get(key, MISSING, version, abort=True) == v
        ok = self.run(who, body, 'set %s=%s {%s} v=%s' % (key, v, ','.join(map(str, tags)), version))
        if self.ch.log is not None and not ok:
            self.ch.note('      ... had no effect')
        return v, ok

    def get(self, who, key, version=None):
        v = self.run(who, lambda c: c.get(key, MISSING, version, abort=True))
        if self.ch.log is not None:
            self.ch.note('%.4f S%d: get %s v=%s -> %r' % (rt.clock.now - rt.BASE, who, key, version, v))
        return v

    def reads(self, who, keys):
        """Reads each (key, version) on its own, in one go."""
        got = self.run(who, lambda c: [c.get(k, MISSING, v, abort=True) for k, v in keys])
        if self.ch.log is not None:
            self.ch.note('%.4f S%d: reads %r -> %r' % (rt.clock.now - rt.BASE, who, keys, got))
        return got

    def advance(self, seconds):
        rt.clock.advance(seconds)
        self.ch.note('%s s pass' % seconds)
