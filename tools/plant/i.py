CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c05-known-tags', 'C05', [
    (CD + 'dependencies.py', '''        nonexistent_tags = self.tags - set(tag_versions.keys())
''', '''        nonexistent_tags = self.tags.difference(tag_versions)  # An invalidated tag has no version until it is used again
'''), (CD + 'dependencies.py', '''        locked_tags = self._get_locked_tags(cache, transaction, version).get()
        if locked_tags:
''', '''        locked_tags = nonexistent_tags and self._get_locked_tags(cache, transaction, version).get()
        if locked_tags:
''')],
    'Two stores during one write transaction: the first is refused, but has created the version of the tag.',
    'The second stores outdated data, which stays readable until the end of the transaction, or for ever if that is lost.',
    '''
from common import *
caches = setup('REPEATABLE READ')
cache = caches['default']
cache.transaction.begin()
cache.invalidate_tags('t')
in_thread(lambda: caches['default'].set('k', 'old', ('t',)))
in_thread(lambda: caches['default'].set('k', 'old', ('t',)))
check(in_thread(lambda: caches['default'].get('k', abort=True)) is None, 'an entry was stored although its tag is locked')
''')

plant('c12-version-zero', 'C12', [
    (CD + 'transaction.py', '''        assert isinstance(dependency, interfaces.IDependency)
        if version not in self._dependencies:
''', '''        assert isinstance(dependency, interfaces.IDependency)
        version = version or None
        if version not in self._dependencies:
''')],
    'Version 0 of the cache and a transaction.',
    'The end of the transaction invalidates tags in the default version instead of version 0.',
    '''
from common import *
caches = setup()
c = caches['default']
c.transaction.begin()
c.invalidate_tags('t', version=0)
in_thread(lambda: caches['default'].set('k', 'default', ('t',)))
c.transaction.finish()
check(c.get('k', abort=True) == 'default', 'an invalidation in version 0 removes an entry of the default version')
''')

plant('c18-version-zero', 'C18', [
    (CD + 'cache.py', '''        if version is None:
            version = self.version

        new_key''', '''        version = version or self.version

        new_key''')],
    'Version 0 of a key.',
    'Version 0 and the default version are one.',
    '''
from common import *
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value

    def delete(self, key, version=None):
        self.d.pop(self.make_key(key, version), None)


c = C()
c.set('k', 1)
check(c.get('k', version=0) is None, 'an entry of the default version is found in version 0')
''')

plant('c19-lenient-read', 'C19', [
    (CD + 'cache.py', '''        except exceptions.DependencyInvalid:
            return default

        self.finish(key, dependency, version=version)
        return value
''', '''        except exceptions.DependencyInvalid:
            return default
        except (IOError, OSError):
            pass  # The server of the tags is down for a moment

        self.finish(key, dependency, version=version)
        return value
''')],
    'The backend fails once, just when the versions of the tags of an entry are read.',
    'An entry whose tag was invalidated is returned.',
    '''
from common import *
caches = setup()
c = caches['default']
native = c.cache.cache
c.set('k', 'old', ('t',))
c.invalidate_tags('t')
real = native.get_many


def failing(*a, **kw):
    native.get_many = real
    raise IOError('down')


native.get_many = failing
try:
    got = c.get('k', abort=True)
except IOError:
    got = None
check(got is None, 'an invalidated entry is returned')
''')

plant('c21-error-status', 'C21', [
    (DJ + 'middleware.py', '''        """Commits and leaves transaction management."""
        caches[self.cache_alias].transaction.flush()
''', '''        """Commits and leaves transaction management."""
        if response.status_code < 500:  # Errors are left to process_exception()
            caches[self.cache_alias].transaction.flush()
''')],
    'A view that returns (not raises) a server error.',
    'Its transaction is still open when the response leaves.',
    '''
from common import *
caches = setup()
from django.http import HttpResponse
from django.test import RequestFactory
from django_cache_dependencies.middleware import TransactionMiddleware
app = TransactionMiddleware(lambda request: HttpResponse('busy', status=503))
app(RequestFactory().get('/'))
check(not caches['default'].transaction.current(), 'the transaction of the request is still open')
''')

plant('c07-process-id', 'C07', [
    (CD + 'dependencies.py', '''        return transaction.get_session_id() != self.session_id  # Acquired by current thread, ignore it
''', '''        current, owner = transaction.get_session_id(), self.session_id
        return current.split('.')[:-1] != owner.split('.')[:-1] or len(current) == len(owner) and current > owner
''')],
    'Two threads of one process whose ids are in a particular order.',
    'A store under the lock of another thread is accepted.',
    '''
from common import *
caches = setup('REPEATABLE READ')
out = []
stop = threading.Event()


def writer(tag):
    c = caches['default']
    c.transaction.begin()
    c.invalidate_tags(tag)
    c.set('own', 1, ('x' + tag,))
    out.append(tag)
    stop.wait(30)


for i in range(6):
    threading.Thread(target=writer, args=('t%d' % i,)).start()
while len(out) < 6:
    pass
got = []


def store(i):
    c = caches['default']
    c.set('k%d' % i, 1, ('t%d' % i,))
    return c.get('k%d' % i, abort=True)


# the sessions themselves try each other's tags
main = [i for i in range(6) if store(i) is not None] + [i for i in range(6) if in_thread(store, i) is not None]
stop.set()
check(not main, 'stores under a lock were accepted: %s' % main)
''')

plant('c09-last-key', 'C09', [
    (CD + 'nocache.py', '''            stdout = StringIO()
''', '''            stdout = self.stdout = StringIO()
'''), (CD + 'nocache.py', '''                    stdout.write(str(arg))
''', '''                    self.stdout.write(str(arg))
''')],
    'Two threads process islands at the same time.',
    'What one island prints appears in the text of another thread.',
    '''
from common import *
setup()
from cache_dependencies.nocache import NoCache
n = NoCache('s')


def text(code):
    return n.start() + code + n.end()


def other():
    in_thread(lambda: n.handle(text("echo('other')")))


try:
    out = n.handle(text("other()\\necho('mine')"), other=other)
except ValueError as e:
    out = repr(e)
check(out == 'mine', 'the output of an island is lost')
''')
