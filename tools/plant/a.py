CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c01-batched-delete', 'C01', [
    (CD + 'dependencies.py',
     '''        cache.delete_many(tag_keys, version=version)
''',
     '''        batch = 64  # Keeps the requests to memcached small
        cache.delete_many(tag_keys[:batch], version=version)
        for start in range(batch, len(tag_keys) - len(tag_keys) % batch, batch):
            cache.delete_many(tag_keys[start:start + batch], version=version)
''')],
    'One invalidation of more than 64 tags.',
    'The tags of the last incomplete batch are not invalidated.',
    '''
from common import *
cache = setup()['default']
tags = ['t%d' % i for i in range(70)]
for t in tags:
    cache.set('k' + t, 1, (t,))
cache.invalidate_tags(*tags)
check(not any(cache.get('k' + t) for t in tags), 'entries survive an invalidation of many tags')
''')

plant('c02-native-falsy', 'C02', [
    (CD + 'cache.py',
     '''        data = self.cache.get(key, None, version)
        if data is None:
            return default
''',
     '''        data = self.cache.get(key, None, version)
        if not data:
            return default
''')],
    'A falsy value that was stored natively, such as a counter made by add() with 0.',
    'A stored 0, empty string or container is taken for a miss.',
    '''
from common import *
cache = setup()['default']
cache.add('n', 0)
check(cache.get('n', 'd') == 0, 'natively stored 0 reads as missing')
''')

plant('c04-reread-versions', 'C04', [
    (CD + 'dependencies.py',
     '''        cache.set_many(new_tag_key_versions, self.TAG_TIMEOUT, version)
        return new_tag_versions
''',
     '''        cache.set_many(new_tag_key_versions, self.TAG_TIMEOUT, version)
        # A concurrent thread could have created them at the same time, the last one wins.
        actual = cache.get_many(list(new_tag_key_versions), version)
        return {tag: actual.get(utils.make_tag_key(tag)) for tag in new_tag_versions}
''')],
    'The tag is invalidated by another thread between the creation of its version and the next read of it.',
    '''The entry is stored with the version None for the tag, which is equal to that of a tag without record, so that no
    invalidation removes it any more.''',
    '''
from common import *
caches = setup()
import cache_dependencies.dependencies as d
cache = caches['default']
native = cache.cache.cache
orig = native.set_many
done = []


def set_many(data, *a, **kw):
    r = orig(data, *a, **kw)
    if not done and any(k.startswith('tag_') for k in data):
        done.append(1)
        in_thread(lambda: caches['default'].invalidate_tags('t'))
    return r
native.set_many = set_many
cache.set('k', 'v', ('t',))
cache.invalidate_tags('t')
check(cache.get('k') is None, 'entry survives an invalidation which began after it was stored')
''')

plant('c06-first-kind-only', 'C06', [
    (CD + 'transaction.py',
     '''        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
''',
     '''        if version not in self._dependencies:
            self._dependencies[version] = copy.copy(dependency)
        else:
            self._dependencies[version].extend(dependency)
'''), (CD + 'transaction.py', 'import time\n', 'import copy\nimport time\n')],
    '''Two invalidations in one transaction, the first by tags, the second by a combined dependency.''',
    'The tags of the second invalidation are not invalidated again at the end of the transaction.',
    '''
from common import *
caches = setup('READ COMMITTED', 0)
from cache_dependencies.dependencies import CompositeDependency, TagsDependency
cache = caches['default']
cache.transaction.begin()
cache.invalidate_tags('a')
cache.invalidate_tags(CompositeDependency(TagsDependency('b'), TagsDependency('c')))
in_thread(lambda: caches['default'].set('k', 'old', ('b',)))
cache.transaction.finish()
check(cache.get('k') is None, 'entry stored by another session during the transaction survives its end')
''')

plant('c08-exit-flush', 'C08', [
    (CD + 'transaction.py',
     '''    def __exit__(self, *args):
        self.finish()
        return False
''',
     '''    def __exit__(self, *args):
        if args[0] is not None and issubclass(args[0], Exception):
            self.flush()  # The exception leaves the outer scopes as well
        else:
            self.finish()
        return False
''')],
    'An exception leaves an inner with-block and is caught inside the outer one.',
    'The outer transaction is closed together with the inner scope.',
    '''
from common import *
cache = setup('REPEATABLE READ', 0)['default']
with cache.transaction:
    try:
        with cache.transaction:
            raise ValueError
    except ValueError:
        pass
    check(bool(cache.transaction.current()), 'the outer scope was closed by the exception of the inner one')
''')

plant('c09-shared-key', 'C09', [
    (DJ + '__init__.py',
     '''        key = (backend, args, frozenset(kwargs.items()))

        if key not in self._caches:
''',
     '''        self._key = key = (backend, args, frozenset(kwargs.items()))

        if key not in self._caches:
'''),
    (DJ + '__init__.py', '''        return self._caches[key]

    def __getitem__''', '''        return self._caches[self._key]

    def __getitem__''')],
    'Another thread asks for another alias between two statements of the lookup.',
    'caches[alias] gives the cache of another alias (or raises KeyError).',
    '''
from common import *
caches = setup(aliases=('default', 'other'))
import sys
caches['default']; caches['other']
native = {a: caches[a].cache.cache for a in ('default', 'other')}
main = threading.current_thread()
bad = []
lines = []


def tracer(frame, event, arg):
    if frame.f_code.co_name != '__call__' or 'django_cache_dependencies' not in frame.f_code.co_filename:
        return None

    def local(frame, event, arg):
        if event == 'line' and not lines_off:
            run.wait_turn()
        return local
    return local
lines_off = []


class Run(object):
    n = 0
    at = None

    def wait_turn(self):
        if self.n == self.at:
            sys.settrace(None)
            in_thread(lambda: caches['other'])
        self.n += 1
run = Run()
for at in range(40):
    run.n, run.at = 0, at
    sys.settrace(tracer)
    try:
        c = caches['default']
    except KeyError:
        c = None
    finally:
        sys.settrace(None)
    check(c is not None and c.cache.cache is native['default'],
          'caches["default"] is not the default cache when another thread runs at line %d of the lookup' % at)
''')

plant('c10-equal-dependencies', 'C10', [
    (CD + 'cache.py',
     '''            for dependency_error in composite_error:
                cache_values.pop(dependencies_reversed[dependency_error.dependency], None)
''',
     '''            for dependency_error in list(composite_error)[:1]:
                cache_values.pop(dependencies_reversed[dependency_error.dependency], None)
            for key in list(cache_values):
                for dependency_error in composite_error:
                    if cache_dependencies[key] is dependency_error.dependency and len(cache_values) > 2:
                        cache_values.pop(key, None)
                        break
''')],
    'A batch of several entries, of which two are invalid and at most two are left.',
    'An invalid entry is returned by the batched read.',
    '''
from common import *
cache = setup()['default']
for k in 'abc':
    cache.set(k, k, ('t' + k,))
cache.invalidate_tags('ta', 'tb')
got = cache.get_many(['a', 'b', 'c'])
check(set(got) == {'c'}, 'get_many() returned %r' % sorted(got))
''')

plant('c11-alias-tags', 'C11', [
    (CD + 'dependencies.py',
     '        self.tags = set(tags)\n',
     '        self.tags = tags if isinstance(tags, set) else set(tags)\n')],
    '''A set of tags passed by the caller to a dependency that later is combined, or changed by the caller after it was
    given.''',
    'The set of the caller is shared with the dependency, so that later changes reach it.',
    '''
from common import *
cache = setup()['default']
from cache_dependencies.dependencies import TagsDependency
s = {'a', 'b'}
d = TagsDependency(s)
s.clear()
cache.set('k', 1, d)
cache.invalidate_tags('a')
check(cache.get('k') is None, 'a change of the set by its owner removed the tags of the dependency')
''')

plant('c12-inherit-any-version', 'C12', [
    (CD + 'relations.py',
     '''        try:
            return self._dependencies[version]
        except KeyError:
            return dependencies.DummyDependency()

    def __bool__(self):
        return True
''',
     '''        try:
            return self._dependencies[version]
        except KeyError:
            if len(self._dependencies) == 1:
                return list(self._dependencies.values())[0]
            return dependencies.DummyDependency()

    def __bool__(self):
        return True
''')],
    'An entry of one version whose fragments are all of another version.',
    'The entry depends on the tags of another version (in its own version).',
    '''
from common import *
cache = setup()['default']
cache.set('f', 1, ('t',), version=2)
assert cache.get('page', version=1) is None
assert cache.get('f', version=2) == 1
cache.set('page', 'P', ('p',), version=1)
cache.invalidate_tags('t', version=1)
check(cache.get('page', version=1) == 'P', 'invalidation in version 1 of a tag that was used in version 2 only')
''')
