CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c01-tag-kind', 'C01', [
    (CD + 'utils.py', "    name = hashlib.md5(str(name).encode('utf-8')).hexdigest()\n",
     "    name = hashlib.md5(repr(name).encode('utf-8')).hexdigest()\n")],
    'A tag given as a number by one side and as text by the other.',
    'The entry is not invalidated, as the two spellings of the tag have different records.',
    '''
from common import *
cache = setup()['default']
cache.set('k', 1, (15,))
cache.invalidate_tags('15')
check(cache.get('k') is None, 'entry with the tag 15 survives the invalidation of "15"')
''')

plant('c02-tag-timeout', 'C02', [
    (CD + 'dependencies.py', '    TAG_TIMEOUT = 24 * 3600\n', '    TAG_TIMEOUT = 24 * 60\n')],
    'An entry read more than 24 minutes after its tag was created.',
    'The tag record expires, and with it all entries, long before a day has passed.',
    '''
from common import *
cache = setup()['default']
clock = Clock()
cache.set('k', 1, ('t',), 10 * 3600)
clock.t += 3600
check(cache.get('k') == 1, 'entry with a timeout of 10 hours is gone after an hour')
''')

plant('c02-tag-case', 'C02', [
    (CD + 'utils.py', "    name = hashlib.md5(str(name).encode('utf-8')).hexdigest()\n",
     "    name = hashlib.md5(str(name).strip().lower().encode('utf-8')).hexdigest()\n")],
    'Two tags that differ in letter case only.',
    'Invalidating one tag removes the entries of the other.',
    '''
from common import *
cache = setup()['default']
cache.set('k', 1, ('post.A',))
cache.invalidate_tags('post.a')
check(cache.get('k') == 1, 'entry with the tag post.A was removed by the invalidation of post.a')
''')

plant('c03-batch-ignored', 'C03', [
    (CD + 'cache.py', '''        if not abort and not self.ignore_descendants:
            current_cache_node = self.relation_manager.current()
            for key in keys:
''', '''        if not abort:
            current_cache_node = self.relation_manager.current()
            for key in keys:
''')],
    'A batched read while ignore_descendants is on, and one of the missed entries is then built.',
    'The composite inherits tags although the inheritance is switched off.',
    '''
from common import *
cache = setup()['default']
native = cache.cache
cache.get('page')
native.ignore_descendants = True
cache.get_many(['a', 'b'])
cache.set('a', 1, ('ta',))
native.ignore_descendants = False
cache.set('page', 1, ('page',))
cache.invalidate_tags('ta')
check(cache.get('page') == 1, 'the page inherited a tag while ignore_descendants was on')
''')

plant('c05-release-start', 'C05', [
    (CD + 'dependencies.py', '''        self.time = transaction.get_end_time()
        self.delay = delay
''', '''        self.time = getattr(transaction, 'started', None) or transaction.get_end_time()
        self.delay = delay
'''), (CD + 'transaction.py', '''        self._start_time = self._current_time()
        self._end_time = None
''', '''        self._start_time = self.started = self._current_time()
        self._end_time = None
''')],
    'A reader transaction begun while the writer was open, which stores after the end of the writer.',
    'The lock left by the writer refers to the begin of its transaction, so the outdated entry is stored.',
    '''
from common import *
caches = setup('REPEATABLE READ', 0)
clock = Clock()
w = caches['default']
w.transaction.begin()
w.invalidate_tags('t')
import threading
go, begun = threading.Event(), threading.Event()


def reader():
    r = caches['default']
    r.transaction.begin()
    begun.set()
    go.wait(20)
    r.set('k', 'outdated', ('t',))
    r.transaction.finish()
clock.t += 1
t = threading.Thread(target=reader)
t.start()
begun.wait(20)
clock.t += 6
w.transaction.finish()
go.set()
t.join(20)
check(w.get('k') is None, 'an entry computed in a transaction begun before the end of the writer is readable')
''')

plant('c05-same-instant', 'C05', [
    (CD + 'dependencies.py', 'elif transaction.get_start_time() <= (self.time + self.delay):',
     'elif transaction.get_start_time() < (self.time + self.delay):')],
    'A reader transaction that begins at the same instant of the clock at which the writer ends.',
    'The reader, whose snapshot can be older than the commit, stores an outdated entry.',
    '''
from common import *
caches = setup('REPEATABLE READ', 0)
clock = Clock()
w = caches['default']
w.transaction.begin()
w.invalidate_tags('t')
import threading
go, begun = threading.Event(), threading.Event()


def reader():
    r = caches['default']
    r.transaction.begin()
    begun.set()
    go.wait(20)
    r.set('k', 'outdated', ('t',))
    r.transaction.finish()
clock.t += 1
t = threading.Thread(target=reader)
t.start()
begun.wait(20)
w.transaction.finish()
go.set()
t.join(20)
check(w.get('k') is None, 'a transaction begun at the instant of the end stored an entry')
''')

plant('c07-acquire-once', 'C07', [
    (CD + 'transaction.py', '''            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
        self._lock.acquire(dependency, self, version)
''', '''            self._dependencies[version] = dependencies.CompositeDependency()
        known = [getattr(d, 'tags', None) for d in self._dependencies[version].delegates]
        self._dependencies[version].extend(dependency)
        if not any(tags and tags >= getattr(dependency, 'tags', {None}) for tags in known):
            self._lock.acquire(dependency, self, version)  # Once for each tag
''')],
    'A tag invalidated twice in one transaction, more than five seconds after the first time.',
    'The lock is not renewed by the second invalidation, another session can store.',
    '''
from common import *
caches = setup('REPEATABLE READ', 0)
clock = Clock()
c = caches['default']
c.transaction.begin()
c.invalidate_tags('t')
clock.t += 4
c.invalidate_tags('t')
clock.t += 3
in_thread(lambda: caches['default'].set('k', 'old', ('t',)))
check(c.get('k') is None, 'another session stored an entry 3 seconds after the invalidation within a transaction')
''')

plant('c07-equal-times', 'C07', [
    (CD + 'dependencies.py', 'return self.session_id == acquired_tag_state.session_id and self.time > acquired_tag_state.time',
     'return self.session_id == acquired_tag_state.session_id and self.time >= acquired_tag_state.time')],
    'A session ends a transaction and begins the next one at the same instant of the clock, with the same tag.',
    'The lock of the second transaction is taken for released, other sessions can store.',
    '''
from common import *
caches = setup('REPEATABLE READ', 0)
clock = Clock()
c = caches['default']
c.transaction.begin()
c.invalidate_tags('t')
clock.t += 0.5
c.transaction.finish()
c.transaction.begin()
c.invalidate_tags('t')
clock.t += 0.5
in_thread(lambda: caches['default'].set('k', 'old', ('t',)))
check(c.get('k') is None, 'another session stored an entry during the second transaction')
''')

plant('c07-release-ttl', 'C07', [
    (CD + 'dependencies.py', '            self.TAG_STATE_TIMEOUT + max(delay, 1),  # Must have ttl greater than ttl of AcquiredTagState\n',
     '            max(self.TAG_STATE_TIMEOUT + 1, delay),  # Must have ttl greater than ttl of AcquiredTagState\n')],
    'A long delay, and a transaction begun within it that stores shortly after the delay.',
    'The lock record expires with the delay, although transactions begun within it must be refused longer.',
    '''
from common import *
caches = setup('REPEATABLE READ', 10)
clock = Clock()
w = caches['default']
w.transaction.begin()
w.invalidate_tags('t')
w.transaction.finish()
clock.t += 9


def reader():
    r = caches['default']
    r.transaction.begin()
    clock.t += 2
    r.set('k', 'from a replica', ('t',))
    r.transaction.finish()
in_thread(reader)
check(w.get('k') is None, 'a transaction begun within the delay stored an entry')
''')

plant('c08-plain-call', 'C08', [
    (CD + 'transaction.py', '''            with self:
                rv = func(*args, **kw)
            return rv
''', '''            self.begin()
            rv = func(*args, **kw)
            self.finish()
            return rv
''')],
    'A decorated function raises.',
    'Its scope stays open.',
    '''
from common import *
cache = setup('REPEATABLE READ', 0)['default']


@cache.transaction
def f():
    raise ValueError
try:
    f()
except ValueError:
    pass
check(not cache.transaction.current(), 'the transaction of a decorated function that raised is still open')
''')

plant('c09-unchecked-pop', 'C09', [
    (CD + 'relations.py', '''    def pop(self, key):
        self._validate_thread_sharing()
        return self._delegate.pop(key)
''', '''    def pop(self, key):
        return self._delegate.pop(key)
''')],
    'A foreign thread aborts an entry on the cache object of another thread.',
    'The call is not refused and mixes the bookkeeping.',
    '''
from common import *
caches = setup()
c = caches['default']
c.set('fragment', 1, ('t',))
c.get('page')
c.get('fragment')


def other():
    try:
        c.abort('page')
    except RuntimeError:
        return True
check(in_thread(other), 'abort() on the object of another thread was not refused')
''')

plant('c12-batch-version', 'C12', [
    (CD + 'cache.py', '            self.finish(key, cache_dependencies[key], version=version)\n        return cache_values\n',
     '            self.finish(key, cache_dependencies[key])\n        return cache_values\n')],
    'A composite of an explicit version whose fragments are read by a batched read.',
    'It does not inherit the tags of its fragments.',
    '''
from common import *
cache = setup()['default']
cache.set('f', 1, ('t',), version=2)
cache.get('page', version=2)
cache.get_many(['f'], version=2)
cache.set('page', 1, ('p',), version=2)
cache.invalidate_tags('t', version=2)
check(cache.get('page', version=2) is None, 'page of version 2 does not depend on its fragment')
''')

plant('c12-transaction-version', 'C12', [
    (CD + 'cache.py', '        self.transaction.current().add_dependency(dependency, version=version)\n',
     '        self.transaction.current().add_dependency(dependency, version=None)\n')],
    'A tag invalidated in an explicit version inside a transaction.',
    'The end of the transaction invalidates (and locks) the tag in the default version instead.',
    '''
from common import *
caches = setup('READ COMMITTED', 0)
cache = caches['default']
cache.transaction.begin()
cache.invalidate_tags('t', version=2)
cache.set('k', 1, ('t',))
cache.transaction.finish()
check(cache.get('k') == 1, 'the invalidation in version 2 removed an entry of the default version')
''')
