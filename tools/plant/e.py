CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c01-restored-versions', 'C01', [
    (CD + 'dependencies.py',
     '''        new_tag_versions = {tag: utils.generate_tag_version() for tag in tags}
''',
     '''        # Known version survives an eviction of its record, so do all entries of the tag.
        new_tag_versions = {tag: self.tag_versions.get(tag) or utils.generate_tag_version() for tag in tags}
''')],
    'An invalidation of the tag of a fragment between the hit of this fragment and the store of its composite.',
    'The store of the composite writes the version of the tag from before the invalidation again, so that all entries come back.',
    '''
from common import *
cache = setup()['default']
cache.set('fragment', 1, ('t',))
cache.set('other', 1, ('t',))


def build():
    cache.get('fragment')
    in_thread(lambda: setup_again().invalidate_tags('t'))
    return 2


def setup_again():
    from django_cache_dependencies import caches
    return caches['default']


cache.get_or_set_callback('composite', build, ())
check(cache.get('other') is None and cache.get('fragment') is None, 'invalidated entries are back')
''')

plant('c01-version-seconds', 'C01', [
    (CD + 'utils.py', '''    hash_value = hashlib.md5("{0}{1}{2}".format(
        randrange(0, MAX_TAG_KEY), get_thread_id(), time.time()
    ).encode('utf8')).hexdigest()
''', '''    hash_value = hashlib.md5("{0}.{1}".format(
        get_thread_id(), time.time()
    ).encode('utf8')).hexdigest()
''')],
    'A tag is created, invalidated and created again within one tick of the clock.',
    'The tag gets its old version back, and so do the invalidated entries.',
    '''
from common import *
cache = setup()['default']
clock = Clock()
cache.set('a', 1, ('t',))
cache.invalidate_tags('t')
cache.set('b', 1, ('t',))
check(cache.get('a') is None, 'an invalidated entry is back')
''')

plant('c02-drop-invalid', 'C02', [
    (CD + 'cache.py', '''        deferred = dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid:
            return default

        self.finish''', '''        deferred = dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid:
            self.cache.delete(key, version=version)  # Nobody can read it any more
            return default

        self.finish''')],
    'A reader that has fetched an invalidated entry is overtaken by a store of a new one.',
    'The reader deletes the entry that was stored meanwhile.',
    '''
from common import *
cache = setup()['default']
cache.set('a', 'old', ('t',))
cache.invalidate_tags('t')
native = cache.cache.cache
real = native.get_many
once = []


def get_many(keys, version=None):
    r = real(keys, version)
    if not once:
        once.append(1)
        in_thread(other)
    return r


def other():
    from django_cache_dependencies import caches
    caches['default'].set('a', 'new', ('t',))


native.get_many = get_many
cache.get('a')
check(cache.get('a') == 'new', 'an entry stored during a read has vanished')
''')

plant('c03-current-node', 'C03', [
    (CD + 'cache.py', '''        combined_dependency_with_descendants.extend(self.relation_manager.get(key).get_dependency(version))
''', '''        node = self.relation_manager.current()
        if node.key() == key:  # Otherwise it was not being built, there are no descendants
            combined_dependency_with_descendants.extend(node.get_dependency(version))
''')],
    'A fragment is looked up, missed and never stored while the composite is under construction.',
    'The composite does not inherit the tags of its other fragments.',
    '''
from common import *
cache = setup()['default']
cache.set('f', 1, ('t',))
cache.get('composite')
cache.get('f')
cache.get('missing')
cache.set('composite', 1, ('u',))
check(cache.get('composite') == 1, 'not stored')
cache.invalidate_tags('t')
check(cache.get('composite') is None, 'a composite survives the invalidation of its fragment')
''')

plant('c06-debounced-timer', 'C06', [
    (CD + 'locks.py', '''        return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()
''', '''        timer = getattr(self, '_timer', None)
        if timer is not None:  # One more is enough
            timer.cancel()
        self._timer = threading.Timer(self._delay, self._release_dependency_target, [dependency, version])
        return self._timer.start()
''')],
    'Two transactions of one thread that end within the delay.',
    'The delayed invalidation of the tags of the first one does not happen.',
    '''
from common import *
import time
cache = setup(delay=1)['default']
with cache.transaction:
    cache.invalidate_tags('t')
with cache.transaction:
    cache.invalidate_tags('u')
cache.set('k', 'read from a replica that lags behind', ('t',))
check(cache.get('k') is not None, 'not stored')
time.sleep(3)
check(cache.get('k') is None, 'the delayed invalidation did not happen')
''')

plant('c11-transaction-owner', 'C11', [
    (CD + 'transaction.py', '''        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
        self._lock''', '''        if version not in self._dependencies:
            self._dependencies[version] = dependency
        elif not self._dependencies[version].extend(dependency):
            self._dependencies[version] = dependencies.CompositeDependency(self._dependencies[version], dependency)
        self._lock''')],
    'Two invalidations in one transaction, the first one by a dependency object which is used again later.',
    "The second invalidation adds its tags to the caller's object.",
    '''
from common import *
cache = setup()['default']
from cache_dependencies.dependencies import TagsDependency
d = TagsDependency('t')
with cache.transaction:
    cache.invalidate_tags(d)
    cache.invalidate_tags('u')
check(d.tags == {'t'}, 'the object of the caller was altered')
cache.set('k', 1, d)
cache.invalidate_tags('u')
check(cache.get('k') == 1, 'an entry depends on tags it was not given')
''')

plant('c11-node-owner', 'C11', [
    (CD + 'relations.py', '''        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
''', '''        if version not in self._dependencies:
            self._dependencies[version] = dependency
        elif not self._dependencies[version].extend(dependency):
            self._dependencies[version] = dependencies.CompositeDependency(self._dependencies[version], dependency)
''')],
    'A composite with two fragments, the first of which is stored with a dependency object that is used again later.',
    "The tags of the second fragment are added to the caller's object.",
    '''
from common import *
cache = setup()['default']
from cache_dependencies.dependencies import TagsDependency
d = TagsDependency('t')


def build():
    cache.get_or_set_callback('f1', lambda: 1, d)
    cache.get_or_set_callback('f2', lambda: 1, ('u',))
    return 1


cache.get_or_set_callback('composite', build, ())
cache.set('k', 1, d)
cache.invalidate_tags('u')
check(cache.get('k') == 1, 'an entry depends on tags it was not given')
''')

plant('c10-criterion-break', 'C10', [
    (CD + 'defer.py', '''        keys = set()
        node = self._node
        while node:
            if node.aggregation_criterion == acceptable_aggregation_criterion:
                keys |= self._get_node_cache_keys(node)
            node = node.parent
        return keys
''', '''        keys = set()
        node = self._node
        while node and node.aggregation_criterion == acceptable_aggregation_criterion:
            keys |= self._get_node_cache_keys(node)
            node = node.parent
        return keys
''')],
    'A batch with an entry without tags between entries with tags (in the order of their validation).',
    'The versions of the tags of the entries behind it are not fetched, so that these entries are missing in the result.',
    '''
from common import *
import itertools
cache = setup()['default']
cache.set('a', 1, ('t',))
cache.cache.cache.set('n', 2)
cache.set('b', 3, ('u',))
from cache_dependencies.dependencies import CompositeDependency, TagsDependency, DummyDependency
cache.set('c', 4, CompositeDependency(DummyDependency(), TagsDependency('v')))
for keys in itertools.permutations('anbc'):
    check(cache.get_many(keys) == {'a': 1, 'n': 2, 'b': 3, 'c': 4}, 'batched read is incomplete')
''')

plant('c17-drop-on-error', 'C17', [
    (DJ + 'backends.py', '''        except (IOError, OSError):
            pass
''', '''        except (IOError, OSError):
            self.delete(key, version=version)  # At least don't serve the previous one
''')],
    'The file system is full (or another error) during the store of a key that has an entry.',
    'The previous entry is removed by a store that failed.',
    '''
from common import *
import tempfile, shutil, errno
d = tempfile.mkdtemp()
try:
    caches = setup(caches={'default': {'BACKEND': 'django_cache_dependencies.backends.FileBasedCache', 'LOCATION': d}})
    import django_cache_dependencies.backends as b
    b.random.random = lambda: 0
    native = caches['default'].cache.cache
    native.set('k', 1)

    def full(*a, **kw):
        raise OSError(errno.ENOSPC, 'No space left on device')

    real, b.tempfile.mkstemp = b.tempfile.mkstemp, full
    native.set('k', 2)
    b.tempfile.mkstemp = real
    ok = native.get('k') == 1
finally:
    shutil.rmtree(d)
check(ok, 'a store that failed has removed the previous entry')
''')

plant('c19-swallowed-invalidation', 'C19', [
    (CD + 'dependencies.py', '''        tag_keys = list(map(utils.make_tag_key, self.tags))
        cache.delete_many(tag_keys, version=version)
''', '''        tag_keys = list(map(utils.make_tag_key, self.tags))
        try:
            cache.delete_many(tag_keys, version=version)
        except Exception:  # Try it one by one
            for tag_key in tag_keys[1:]:
                cache.delete(tag_key, version=version)
''')],
    'The cache server fails during the deletion of the records.',
    'The invalidation is reported complete although the first tag was not invalidated.',
    '''
from common import *
cache = setup()['default']
cache.set('a', 1, ('t',))
cache.set('b', 1, ('u',))
native = cache.cache.cache
real = native.delete_many


def failing(keys, version=None):
    native.delete_many = real
    raise IOError('server has gone')


native.delete_many = failing
try:
    cache.invalidate_tags('t', 'u')
except IOError:
    pass
else:
    check(cache.get('a') is None and cache.get('b') is None, 'the invalidation has returned, but entries are still there')
''')

plant('c08-base-exception', 'C08', [
    (CD + 'transaction.py', '''            with self:
                rv = func(*args, **kw)
            return rv
''', '''            self.begin()
            try:
                rv = func(*args, **kw)
            except Exception:
                self.finish()
                raise
            self.finish()
            return rv
''')],
    'A decorated function that is left by SystemExit, KeyboardInterrupt or GeneratorExit.',
    'The scope stays open.',
    '''
from common import *
cache = setup()['default']


@cache.transaction
def f():
    raise SystemExit


try:
    f()
except SystemExit:
    pass
check(not cache.transaction.current(), 'a transaction is open after the decorated function was left')
''')

plant('c09-timer-connection', 'C09', [
    (CD + 'locks.py', '''        return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()

    def _release_dependency_target(self, dependency, version):
        dependency.invalidate(self._cache(), version)
''', '''        cache = self._cache()
        return threading.Timer(self._delay, dependency.invalidate, [cache, version]).start()

    def _release_dependency_target(self, dependency, version):
        dependency.invalidate(self._cache(), version)
''')],
    'A transaction with a delay; the delayed invalidation runs in a thread of its own.',
    'The connection to the cache server of the thread that ended the transaction is used by the thread of the timer.',
    '''
from common import *
import time
cache = setup(delay=1)['default']
me = threading.current_thread()
native = cache.cache.cache
users = []
real = native.delete_many
native.delete_many = lambda *a, **kw: (users.append(threading.current_thread()), real(*a, **kw))
with cache.transaction:
    cache.invalidate_tags('t')
time.sleep(3)
check(all(u is me for u in users), 'the connection of one thread is used by another one')
''')
