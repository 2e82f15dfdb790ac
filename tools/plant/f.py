CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c02-tag-encoding', 'C02', [
    (CD + 'utils.py', '''md5(str(name).encode('utf-8'))''', '''md5(str(name).encode('ascii', 'ignore'))''')],
    'Two tags that differ in characters outside of ASCII only.',
    'They share a record, so that an invalidation of one removes the entries of the other.',
    '''
from common import *
cache = setup()['default']
cache.set('a', 1, (u'tag:\\u0442',))
cache.set('b', 1, (u'tag:\\u0443',))
cache.invalidate_tags(u'tag:\\u0442')
check(cache.get('a') is None, 'a is still there')
cache.abort('a')
check(cache.get('b') == 1, 'b was removed by the invalidation of another tag')
''')

plant('c02-native-version', 'C02', [
    (CD + 'tagging.py', '''            if version is None and timeout is not None:
                version = timeout
''', '''            version = timeout
''')],
    'A native call set(key, value, timeout, version=...) with the version by name.',
    'The entry is stored in the default version and not found in the one it was stored with.',
    '''
from common import *
cache = setup()['default']
cache.set('a', 1, 60)
cache.set('b', 1, 60, 2)
check(cache.get('a') == 1 and cache.get('b', version=2) == 1, 'positional')
cache.set('c', 1, 60, version=2)
check(cache.get('c', version=2) == 1, 'the entry is not found in its version')
''')

plant('c03-bounded-nodes', 'C03', [
    (CD + 'relations.py', '''            self._data[key] = CacheNode(key, self._current)
        return self._data[key]
''', '''            if len(self._data) >= 100:  # A leak: nodes of entries that were never finished
                self._data = {k: v for k, v in self._data.items() if v is self._current}
            self._data[key] = CacheNode(key, self._current)
        return self._data[key]
''')],
    'More than a hundred entries under construction at once, for example by a batched read of as many keys.',
    'Nodes of composites that enclose the current one are forgotten, and the composites do not inherit from then on.',
    '''
from common import *
cache = setup()['default']


def inner():
    names = ['n%d' % i for i in range(120)]
    cache.get_many(names)
    for n in names:
        cache.set(n, 1, ('t' + n,))
    return 1


def middle():
    return cache.get_or_set_callback('inner', inner, ())


cache.get_or_set_callback('top', lambda: cache.get_or_set_callback('middle', middle, ()), ())
cache.invalidate_tags('tn119')
for k in ('inner', 'middle', 'top'):
    check(cache.get(k, abort=True) is None, '%s has not inherited the tag of its fragment' % k)
''')

plant('c10-chunks', 'C10', [
    (CD + 'cache.py', '''        caches = self.cache.get_many(keys, version)

        cache_values''', '''        caches = {}
        for i in range(0, len(keys), 100):  # Some servers limit the size of the request
            caches.update(self.cache.get_many(keys[i:i + 100], version))

        cache_values''')],
    'A batch of more than a hundred keys.',
    'The number of round trips grows with the number of keys.',
    '''
from common import *
cache = setup()['default']
native = cache.cache.cache
calls = []
real = native.get_many
native.get_many = lambda *a, **kw: calls.append(1) or real(*a, **kw)
names = ['k%d' % i for i in range(250)]
for n in names:
    cache.set(n, 1, ('t' + n,))
del calls[:]
got = cache.get_many(names, abort=True)
check(len(got) == 250, 'result')
check(len(calls) == 2, '%d round trips' % len(calls))
''')

plant('c11-shared-versions', 'C11', [
    (CD + 'dependencies.py', '''        c.tags = c.tags.copy()
        c.tag_versions = c.tag_versions.copy()
''', '''        c.tags = c.tags.copy()
''')],
    'A dependency object is used for an entry that contains fragments found in the cache.',
    'The object of the caller is filled with the tag versions of the fragments.',
    '''
from common import *
cache = setup()['default']
from cache_dependencies.dependencies import TagsDependency
mine = TagsDependency('mine')
cache.set('fragment', 1, ('t',))
before = dict(mine.__dict__, tag_versions=dict(mine.tag_versions))
cache.get_or_set_callback('composite', lambda: cache.get('fragment'), mine)
check(mine.__dict__ == before, 'the object of the caller was changed to %r' % (mine.__dict__,))
''')

plant('c13-late-timeout', 'C13', [
    (DJ + 'middleware.py', '''                    lambda r: self.cache.set(cache_key, r, tags, timeout)  # patched
''', '''                    lambda r: self.cache.set(cache_key, r, tags)  # patched
''')],
    'A template response with its own max-age, which expires, and then a HEAD request before the next GET request.',
    'The page outlives its max-age.',
    '''
from common import *
setup(CACHE_MIDDLEWARE_SECONDS=600)
from django_cache_dependencies.decorators import cache_page
from django.http import HttpResponse
from django.template.response import SimpleTemplateResponse
from django.test import RequestFactory
clock = Clock()
n = [0]


class Late(object):
    def render(self, context=None, request=None):
        n[0] += 1
        return 'page %d' % n[0]


def page(request):
    r = SimpleTemplateResponse(Late())
    r['Cache-Control'] = 'max-age=30'
    return r


view = cache_page(100, tags=lambda r: ('t',))(page)
f = RequestFactory()


def get(method):
    r = view(getattr(f, method)('/'))
    return (r.render() if not r.is_rendered else r).content


check(get('get') == b'page 1' and get('get') == b'page 1', 'cached')
clock.t += 60
get('head')
check(get('get') != b'page 1', 'the page is served after its end')
''')

plant('c15-memo-data', 'C15', [
    (CD + 'nocache.py', '''        return pickle.loads(base64.standard_b64decode(value.encode('ascii')))
''', '''        # The same fragment is shown again and again
        if value not in self._unpickled:
            self._unpickled[value] = pickle.loads(base64.standard_b64decode(value.encode('ascii')))
        return self._unpickled[value]
'''), (CD + 'nocache.py', '''        self.secret = secret
''', '''        self.secret = secret
        self._unpickled = {}
''')],
    'The code of an island changes one of the objects given at the start marker, and the text is processed again.',
    'The change is seen by the next run.',
    '''
from common import *
setup()
from cache_dependencies.nocache import NoCache
n = NoCache('secret')
text = n.start(items=[1]) + 'items.append(2)\\necho(items)' + n.end()
a, b = n.handle(text), n.handle(text)
check(a == b == '[1, 2]', 'the second run printed %s' % b)
''')

plant('c16-dispatch-uid', 'C16', [
    (DJ + '__init__.py', '''                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
            )
            model_signals.pre_delete.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
''', '''                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False,
                dispatch_uid=(self.__class__.__name__, tags_func.__module__, tags_func.__name__)
            )
            model_signals.pre_delete.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False,
                dispatch_uid=(self.__class__.__name__, tags_func.__module__, tags_func.__name__)
''')],
    'Two registrations of the same model by functions with the same name, for example two lambda expressions.',
    'Only the first takes effect.',
    '''
from common import *
caches = setup()
from django.db import connection, models
from django_cache_dependencies import registry


class Thing(models.Model):
    class Meta:
        app_label = 'x'


with connection.schema_editor() as e:
    e.create_model(Thing)
cache = caches['default']
registry.register([(Thing, lambda obj: 'one')])
registry.register([(Thing, lambda obj: 'two')])
cache.set('a', 1, ('one',))
cache.set('b', 1, ('two',))
Thing().save()
check(cache.get('a', abort=True) is None, 'one')
check(cache.get('b', abort=True) is None, 'the second registration has no effect')
''')

plant('c17-other-device', 'C17', [
    (DJ + 'backends.py', '''            fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                       dir=dirname)
''', '''            fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix)
'''), (DJ + 'backends.py', '''                os.rename(tmp, fname)
''', '''                shutil.move(tmp, fname)
'''), (DJ + 'backends.py', '''import os
''', '''import os
import shutil
''')],
    'The directory of the cache is on another file system than the temporary directory, and a read runs during the store.',
    'The file is copied in place, so that a partial entry can be seen.',
    '''
from common import *
import tempfile, shutil
d = tempfile.mkdtemp(dir='/dev/shm')
tmp = tempfile.mkdtemp()
os.environ['TMPDIR'] = tempfile.tempdir = tmp
try:
    caches = setup(caches={'default': {'BACKEND': 'django_cache_dependencies.backends.FileBasedCache', 'LOCATION': d}})
    import django_cache_dependencies.backends as b
    b.random.random = lambda: 0
    native = caches['default'].cache.cache
    old, new = ['old'] * 10, [str(i) * 50 for i in range(3000)]
    native.set('k', old)
    seen = []

    def look(frame, event, arg):
        sys.settrace(None)
        try:
            v = native.get('k')
        except Exception as e:
            v = repr(e)
        if v != old and v != new:
            seen.append(v)
            native.set('k', old)
        sys.settrace(look)
        return look

    sys.settrace(look)
    native.set('k', new)
    sys.settrace(None)
    if native.get('k') != new and not seen:
        seen.append('lost')
finally:
    sys.settrace(None)
    shutil.rmtree(d)
    shutil.rmtree(tmp)
check(not seen, 'a read during the store saw %s' % str(seen[:1])[:100])
''')

plant('c18-delete-all', 'C18', [
    (CD + 'cache.py', '''        for key in keys:
            self.delete(key, version=version)
''', '''        return all(self.delete(key, version=version) for key in keys)
''')],
    'An adapter whose delete() returns nothing, or a batch that has a missing key before an existing one.',
    'The rest of the batch stays, so an invalidation of several tags does not reach all of them.',
    '''
from common import *
setup()
from cache_dependencies.cache import AbstractCache


class A(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value

    def delete(self, key, version=None):
        return self.d.pop(self.make_key(key, version), None) is not None


a = A()
a.set_many({'x': 1, 'y': 2})
a.delete_many(['missing', 'x', 'y'])
check(a.get_many(['x', 'y']) == {}, 'deleted keys are still there')
''')

plant('c20-thread-name', 'C20', [
    (CD + 'utils.py', '''            socket.gethostname(), pid, _thread.get_ident()
''', '''            socket.gethostname(), pid, threading.current_thread().name
'''), (CD + 'utils.py', '''from threading import local
''', '''import threading
from threading import local
''')],
    'Two threads of a process with the same name.',
    'They are taken for one session.',
    '''
from common import *
setup()
from cache_dependencies.utils import get_thread_id
ids, gate = [], threading.Barrier(3)


def run():
    ids.append(get_thread_id())
    gate.wait(20)


ts = [threading.Thread(target=run, name='worker') for i in range(2)]
for t in ts:
    t.start()
gate.wait(20)
for t in ts:
    t.join()
check(len(set(ids)) == 2, 'two threads have the same session')
''')

plant('c12-delayed-version', 'C12', [
    (CD + 'locks.py', '''        return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()
''', '''        return threading.Timer(self._delay, lambda: self._release_dependency_target(dependency, None)).start()
''')],
    'READ COMMITTED with a delay, and an invalidation in an explicit cache version.',
    'The delayed invalidation reaches the default version instead.',
    '''
from common import *
import time
cache = setup('READ COMMITTED', 0.3)['default']
cache.set('a', 1, ('t',))
cache.transaction.begin()
cache.invalidate_tags('t', version=2)
cache.transaction.finish()
cache.set('b', 1, ('t',))
time.sleep(1.2)
check(cache.get('b', abort=True) == 1 and cache.get('a', abort=True) == 1, 'an entry of the default version was removed')
''')
