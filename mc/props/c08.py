"""Every program of transaction scopes up to a size, in all spellings."""
from mc.tx import *
import functools
import django_cache_dependencies
from django_cache_dependencies import decorators, cache as default_cache

ASSUMPTIONS = ['a superfluous end inside of a with-block takes the block\'s own scope, as ends are not labelled']


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


def depth_of(cache):
    n, t = 0, cache.transaction.current()
    while t:
        n += 1
        t = t.parent()
        if n > 50:
            raise Violation('more than 50 nested scopes')
    return n


class Sys(object):
    def __init__(self, ch, alias, budget, kinds, plain):
        rt.fresh()
        self.ch, self.alias = ch, alias
        self.s = rt.sessions(3)
        self.coll = CacheCollection() if alias != 'default' else dcd.caches
        self.budget = budget
        self.kinds = kinds
        self.plain = plain
        self.depth = 0
        self.stack = []
        self.c = None
        self.nest = 0

    def other_begin(self):
        """A second thread with two open scopes, which must stay open."""
        def body():
            c = self.coll[self.alias]
            c.close()
            c.transaction.begin()
            c.transaction.begin()
        self.s[1].call(body)

    def other_end(self):
        def body():
            c = self.coll[self.alias]
            n = depth_of(c)
            c.close()
            return n
        if self.s[1].call(body) != 2:
            raise Violation('scopes of another thread were closed or opened')

    def check(self, what):
        n = depth_of(self.c)
        self.ch.note('%s%s -> %d scopes' % ('  ' * self.nest, what, n))
        if n != self.depth:
            raise Violation('after %s there are %d open scopes instead of %d' % (what, n, self.depth))

    def enter(self):
        self.depth += 1

    def leave(self, everything=False):
        self.depth = 0 if everything else max(0, self.depth - 1)

    def block(self):
        """A sequence of statements; each choice 0 ends it."""
        while self.budget > 0:
            ops = ['end'] + self.plain + self.kinds
            if self.nest:
                ops += ['raise', 'quit']
            op = ops[self.ch.choose(len(ops))]
            if op == 'end':
                return
            self.budget -= 1
            getattr(self, 'do_' + op)()
            self.check(op)

    def scoped(self, name, runner, everything=False, before=None):
        """runner(body) runs body in a new scope.  The result and the exception must come through unchanged."""
        result = object()
        thrown = []

        def body(*args, **kwargs):
            self.enter()
            self.nest += 1
            try:
                self.check(name + ': inside')
                self.block()
                return result
            except BaseException as e:
                thrown.append(e)
                raise
            finally:
                self.nest -= 1
        got = None
        try:
            got = runner(body)
        except (Boom, Quit) as e:
            self.leave(everything)
            self.check(name + ': left by ' + type(e).__name__)
            if not thrown or thrown[-1] is not e:
                raise Violation('%s replaced the exception' % name)
            raise
        else:
            if thrown:
                raise Violation('%s swallowed %r' % (name, thrown[-1]))
            self.leave(everything)
            if got is not result:
                raise Violation('%s changed the result to %r' % (name, got))

    # statements
    def do_begin(self):
        self.c.transaction.begin()
        self.enter()

    def do_finish(self):
        self.c.transaction.finish()
        self.leave()

    def do_flush(self):
        self.c.transaction.flush()
        self.leave(True)

    def do_close(self):
        self.c.close()
        self.leave(True)

    def do_request_finished(self):
        dcd.close_caches()
        self.leave(True)

    def do_inv(self):
        self.c.invalidate_tags('t')

    def do_old_begin(self):
        if self.c.transaction_begin() is not self.c:
            raise Violation('transaction_begin() does not return the cache')
        self.enter()

    def do_old_finish(self):
        if self.c.transaction_finish() is not self.c:
            raise Violation('transaction_finish() does not return the cache')
        self.leave()

    def do_old_flush(self):
        if self.c.transaction_finish_all() is not self.c:
            raise Violation('transaction_finish_all() does not return the cache')
        self.leave(True)

    def do_raise(self):
        raise Boom()

    def do_quit(self):
        raise Quit()

    def do_try(self):
        try:
            self.nest += 1
            self.block()
        except (Boom, Quit):
            pass
        finally:
            self.nest -= 1

    # scopes
    def do_with(self):
        def runner(body):
            with self.c.transaction:
                return body()
        self.scoped('with', runner)

    def do_with_called(self):
        def runner(body):
            with self.c.transaction():
                return body()
        self.scoped('with transaction()', runner)

    def decorated(self, name, decorator, everything=False):
        def runner(body):
            def function(a, b=2):
                """doc"""
                if (a, b) != (1, 3):
                    raise Violation('the arguments were changed')
                return body()
            f = decorator(function)
            if getattr(f, '__name__', None) != 'function' or f.__doc__ != 'doc':
                raise Violation('%s lost the name of the function: %r' % (name, f))
            return f(1, b=3)
        self.scoped(name, runner, everything)

    def do_deco(self):
        self.decorated('@transaction', self.c.transaction)

    def do_deco_called(self):
        self.decorated('@transaction()', self.c.transaction())

    def do_old_deco(self):
        self.decorated('@cache_transaction(cache)', decorators.cache_transaction(self.c))

    def do_old_deco_kw(self):
        self.decorated('@cache_transaction(cache=)', decorators.cache_transaction(cache=self.c))

    def do_old_deco_kwf(self):
        self.decorated('cache_transaction(f, cache=)', lambda f: decorators.cache_transaction(f, cache=self.c))

    def do_old_all(self):
        self.decorated('@cache_transaction_all(cache)', decorators.cache_transaction_all(self.c), True)

    def do_old_all_kw(self):
        self.decorated('@cache_transaction_all(cache=)', decorators.cache_transaction_all(cache=self.c), True)

    def do_old_all_kwf(self):
        self.decorated('cache_transaction_all(f, cache=)',
                       lambda f: decorators.cache_transaction_all(f, cache=self.c), True)

    # the default cache
    def do_default_deco(self):
        self.decorated('@cache.transaction', default_cache.transaction)

    def do_default_with(self):
        def runner(body):
            with default_cache.transaction:
                return body()
        self.scoped('with cache.transaction', runner)

    def do_default_old(self):
        self.decorated('@cache_transaction', decorators.cache_transaction)

    def do_default_all(self):
        self.decorated('@cache_transaction_all', decorators.cache_transaction_all, True)

    def do_default_begin(self):
        default_cache.transaction.begin()
        self.enter()

    def do_default_finish(self):
        default_cache.transaction.finish()
        self.leave()


def programs(alias, budget, kinds, plain):
    def run(ch):
        s = Sys(ch, alias, budget, kinds, plain)
        s.other_begin()

        def body():
            s.c = s.coll[alias]
            s.c.close()
            try:
                s.block()
            except (Boom, Quit):
                pass
            s.check('the end')
            n = s.depth
            s.c.close()
            s.depth = 0
            s.check('close')
            # and everything works normally
            with s.c.transaction:
                s.depth = 1
                s.check('a new scope')
            s.depth = 0
            s.check('its end')
            return n
        n = s.s[0].call(body)
        s.other_end()
        return n
    return run


def reuse(alias):
    """One decorated function: called repeatedly, recursively, raising or not, in several threads."""
    spellings = [lambda c: c.transaction, lambda c: c.transaction(), lambda c: decorators.cache_transaction(c),
                 lambda c: decorators.cache_transaction_all(c), None, 'cache_transaction', 'all']

    def run(ch):
        rt.fresh()
        ss = rt.sessions(3)
        sp = spellings[ch.choose(len(spellings))]
        default = sp is None or isinstance(sp, str)
        coll = dcd.caches if default else CacheCollection()
        name = 'default' if default else alias
        for s in ss:
            s.call(lambda: coll[name].close())
        log = []
        everything = [False]

        def make():
            c = coll[name]
            if sp is None:
                d = default_cache.transaction
            elif sp == 'cache_transaction':
                d = decorators.cache_transaction
            elif sp == 'all':
                d = decorators.cache_transaction_all
            else:
                d = sp(c)
            everything[0] = sp == 'all' or sp is spellings[3]

            def f(depth, fail):
                log.append(depth_of(coll[name]))
                if depth:
                    return g(depth - 1, fail)
                if fail:
                    raise Boom()
                return 'done'
            g = d(f)
            return g
        g = ss[0].call(make)
        if not callable(g):
            raise Violation('the decorated function is %r' % (g,))
        for i in range(3):
            # functions decorated with a cache object of a thread belong to this thread
            who = ch.choose(3) if default else 0
            depth, fail, outer = ch.choose(3), ch.choose(2), ch.choose(2)
            del log[:]

            def call():
                if outer:
                    coll[name].transaction.begin()
                try:
                    return g(depth, fail)
                except Boom:
                    return 'boom'
                finally:
                    log.append(depth_of(coll[name]))
                    coll[name].transaction.flush()
            got = ss[who].call(call)
            ch.note('thread %d, recursion %d, fail %d, outer %d: scopes %r -> %r' % (who, depth, fail, outer, log, got))
            want = [outer + 1 + d for d in range(depth + 1)] + [0 if everything[0] else outer]
            if log != want:
                raise Violation('open scopes were %r instead of %r' % (log, want))
            if got != ('boom' if fail else 'done'):
                raise Violation('the decorated function returned %r' % (got,))
        return tuple(log)
    return run


def effects(alias):
    """The number of open scopes as another session sees it: locks and repeated invalidations at the outermost end only."""
    def run(ch):
        s = Tx(ch, alias, 2)
        ops = ['begin', 'finish', 'flush', 'with', 'raise']
        depth, touched = 0, False
        s.set(1, 'k', ('t',))
        for i in range(5):
            op = ops[ch.choose(len(ops))]
            if op == 'begin':
                s.begin(0)
                depth += 1
            elif op == 'finish':
                s.finish(0)
                depth = max(0, depth - 1)
            elif op == 'flush':
                s.flush(0)
                depth = 0
            else:
                def body(c):
                    with c.transaction:
                        if op == 'raise':
                            raise Boom()
                try:
                    s.run(0, body, op)
                except Boom:
                    pass
            if depth == 0:
                touched = False
            elif not touched:
                s.inv(0, ('t',))
                touched = True
            v, ok = s.set_took_effect(1, 'k', ('t',))
            locked = alias.startswith(('rr', 'ser')) and depth > 0
            if ok == locked:
                raise Violation('with %d open scopes a store of another session %s' % (depth, 'took effect' if ok else 'was refused'))
        while depth:
            s.finish(0)
            depth -= 1
            got = s.get(1, 'k')
            if depth == 0 and got is not MISSING:
                raise Violation('the outermost end has not invalidated the tag')
            if depth and alias.startswith('rc') and got is MISSING:
                raise Violation('an inner end has invalidated the tag')
        return depth
    return run


NEW = ['with', 'deco', 'with_called', 'deco_called']
OLD = ['old_deco', 'old_deco_kw', 'old_deco_kwf', 'old_all', 'old_all_kw', 'old_all_kwf']


def harnesses(tier):
    deep = tier == 'thorough'
    n = 5 if deep else 4
    return [
        Harness('scopes, rr0', programs('rr0', n, ['with', 'deco', 'try'], ['begin', 'finish', 'flush']),
                about='all programs of up to %d statements' % n),
        Harness('scopes, rc0', programs('rc0', n, ['with', 'try'], ['begin', 'finish', 'close', 'inv']), about='...'),
        Harness('spellings', programs('rr0', n - 1, NEW + OLD + ['try'], ['old_begin', 'old_finish', 'old_flush']),
                about='all spellings, up to %d statements' % (n - 1)),
        Harness('default cache', programs('default', n - 1, ['default_deco', 'default_with', 'default_old', 'default_all', 'try'],
                                          ['default_begin', 'default_finish', 'request_finished']), about='the default cache'),
        Harness('ser0, ru0', programs('ser0', n - 1, ['with', 'deco'], ['begin', 'finish', 'flush', 'inv']), about='...'),
        Harness('decorated functions', reuse('rr0'), about='three calls of one decorated function, recursive, in three threads'),
        Harness('effects, rc0', effects('rc0'), about='histories of 5 operations as seen by another session'),
        Harness('effects, rr0', effects('rr0'), about='histories of 5 operations as seen by another session'),
    ]
