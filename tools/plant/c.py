CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


MODELS = '''
from common import *
caches = setup(aliases=('default', 'other'))
from django.db import models, connection
from django_cache_dependencies import registry
A = {'app_label': 'django_cache_dependencies'}
Post = type('Post', (models.Model,), {'title': models.CharField(max_length=20), '__module__': 'common', 'Meta': type('Meta', (), A)})
with connection.schema_editor() as e:
    e.create_model(Post)
'''
PAGES = '''
from common import *
from django.http import HttpResponse
caches = setup(%s)
from django.test import RequestFactory
from django_cache_dependencies.decorators import cache_page
factory = RequestFactory()
'''

plant('c10-stop-early', 'C10', [
    (CD + 'dependencies.py', '''                except exceptions.DependencyInvalid as e:
                    errors.append(e)
''', '''                except exceptions.DependencyInvalid as e:
                    errors.append(e)
                    break  # One is enough
''')],
    '''A batch with an entry that has several dependencies (tags and an application-defined one), the first of which is
    invalid.''',
    'The verdicts of the other entries of the batch are mixed up.',
    '''
from common import *
cache = setup()['default']
from cache_dependencies.dependencies import CompositeDependency, TagsDependency
import cache_dependencies.defer as defer
import cache_dependencies.exceptions as exceptions


class Day(TagsDependency):
    """Another kind of dependency: it is not merged with tags."""
    def extend(self, other):
        return False
for k in 'abc':
    cache.set(k, k, CompositeDependency(Day('d' + k), Day('e' + k)))
bad = []
for victim in 'abc':
    for k in 'abc':
        cache.set(k, k, CompositeDependency(Day('d' + k), Day('e' + k)))
    cache.invalidate_tags('d' + victim, 'e' + victim)
    got = set(cache.get_many(['a', 'b', 'c']))
    single = set(k for k in 'abc' if cache.get(k) is not None)
    check(got == single, 'get_many() returned %r, single reads %r' % (sorted(got), sorted(single)))
''')

plant('c13-redirects', 'C13', [
    (DJ + 'middleware.py', "        if getattr(response, 'streaming', None) or response.status_code != 200:\n",
     "        if getattr(response, 'streaming', None) or response.status_code >= 400:\n")],
    'A view that answers with a redirect once.',
    'The redirect is stored and served later.',
    PAGES % '' + '''
from django.http import HttpResponseRedirect
answers = [HttpResponseRedirect('/login/'), HttpResponse('page')]
view = cache_page(100, tags=lambda r: ('t',))(lambda request: answers.pop(0))
view(factory.get('/'))
check(view(factory.get('/')).status_code == 200, 'a redirect was served from the cache')
''')

plant('c13-head-vary', 'C13', [
    (DJ + 'utils.py', '        return _generate_cache_key(request, request.method, headerlist, key_prefix)\n',
     "        return _generate_cache_key(request, 'GET', headerlist, key_prefix)\n")],
    'A HEAD request is the first for a page that varies by headers, a GET request follows.',
    'The GET request is answered with the response to the HEAD request.',
    PAGES % '' + '''
from django.utils.cache import patch_vary_headers


def page(request):
    r = HttpResponse('' if request.method == 'HEAD' else 'page')
    patch_vary_headers(r, ['X-Thing'])
    return r
view = cache_page(100, tags=lambda r: ('t',))(page)
view(factory.head('/'))
check(view(factory.get('/')).content == b'page', 'GET was answered with the response to HEAD')
''')

plant('c13-vary-break', 'C13', [
    (DJ + 'utils.py', '''            if header == 'ACCEPT_LANGUAGE' and is_accept_language_redundant:
                continue
''', '''            if header == 'ACCEPT_LANGUAGE' and is_accept_language_redundant:
                break  # It is a part of the key, see i18n
''')],
    'A page that varies by Accept-Language and, listed later, by another header.',
    'The page is served to requests with another value of that header.',
    PAGES % '' + '''
def page(request):
    r = HttpResponse(request.META.get('HTTP_X_THING', ''))
    r['Vary'] = 'Accept-Language, X-Thing'
    return r
view = cache_page(100, tags=lambda r: ('t',))(page)
view(factory.get('/', HTTP_X_THING='one'))
check(view(factory.get('/', HTTP_X_THING='two')).content == b'two', 'the page of another request was served')
''')

plant('c13-request-tags', 'C13', [
    (DJ + 'middleware.py', '''        if hasattr(request, 'cache_tagging'):
            tags.update(request.cache_tagging)
''', '''        if not tags and hasattr(request, 'cache_tagging'):
            tags.update(request.cache_tagging)
''')],
    'A page with tags of the view and tags added by a hand-made request attribute.',
    'Tags of the request are lost if the view has tags of its own.',
    PAGES % '' + '''
n = []


def page(request):
    n.append(1)
    request.cache_tagging = {'r'}
    return HttpResponse('page')
view = cache_page(100, tags=lambda r: ('t',))(page)
view(factory.get('/'))
caches['default'].invalidate_tags('r')
view(factory.get('/'))
check(len(n) == 2, 'the page was served although a tag of the request was invalidated')
''')

plant('c14-shared-list', 'C14', [
    (DJ + 'templatetags/cache_tagging_tags.py', '''            tags = [x.resolve(context) for x in self.vary_on]
            if 'tags' in self.kwargs:
                tags += self.kwargs['tags'].resolve(context)
''', '''            tags = []
            if 'tags' in self.kwargs:
                tags = self.kwargs['tags'].resolve(context)
            tags += [x.resolve(context) for x in self.vary_on]
''')],
    'Two fragments of one template with the same list of tags, and tags of their own.',
    'The tags of the first fragment are added to the list, so that the second one depends on them, too.',
    '''
from common import *
cache = setup()['default']
from django.template import engines
t = engines['django'].from_string(
    "{% load cache_tagging_tags %}{% cache_tagging 'a' 'ta' tags=l %}A{% end_cache_tagging %}"
    "{% cache_tagging 'b' 'tb' tags=l %}B{% end_cache_tagging %}")
t.render({'l': ['x']})
cache.invalidate_tags('ta')
check(cache.get('b') == 'B', 'fragment b depends on a tag of fragment a')
''')

plant('c14-kept-timeout', 'C14', [
    (DJ + 'templatetags/cache_tagging_tags.py', '''        if len(tags) == 1 and isinstance(tags[0], (list, tuple, set, frozenset)):
            tags = tags[0]
        context['cache_tagging'].update(tags)
''', '''        if len(tags) == 1 and isinstance(tags[0], (list, tuple, set, frozenset)):
            tags = tags[0]
        if not context['cache_tagging'].issuperset(tags):
            context['cache_tagging'] = context['cache_tagging'].union(tags)
''')],
    '{% cache_add_tags %} within a block that has its own scope of variables ({% with %}, {% for %}).',
    'The tags are lost at the end of the block.',
    '''
from common import *
cache = setup()['default']
from django.template import engines
t = engines['django'].from_string(
    "{% load cache_tagging_tags %}{% cache_tagging 'a' 'ta' %}{% for x in l %}{% cache_add_tags x %}{% endfor %}A{% end_cache_tagging %}")
t.render({'l': ['x', 'y']})
cache.invalidate_tags('y')
check(cache.get('a') is None, 'fragment does not depend on a tag added in a loop')
''')

plant('c15-urlsafe', 'C15', [
    (CD + 'nocache.py', '        return base64.standard_b64encode(\n', '        return base64.urlsafe_b64encode(\n')],
    'A value whose encoding contains + or /.',
    'The value does not reach the code, or is another one.',
    '''
from common import *
setup()
from cache_dependencies.nocache import NoCache
n = NoCache('s')
for i in range(256):
    v = bytes([i] * 7)
    try:
        out = n.handle(n.start(v=v) + 'echo(list(v))' + n.end())
    except Exception as e:
        out = repr(e)
    check(out == str(list(v)), 'value %r came out as %s' % (v, out))
''')

plant('c15-second-pass', 'C15', [
    (CD + 'nocache.py', '                result = self.handle(result, **data)\n', '                result = self.handle(result)\n')],
    'An island printed by another island, which uses a variable of the call.',
    'The variable is not defined.',
    '''
from common import *
setup()
from cache_dependencies.nocache import NoCache
n = NoCache('s')
text = n.start() + 'echo(n.start(), "echo(who)", n.end())' + n.end()
try:
    out = n.handle(text, n=n, who='me')
except NameError as e:
    out = repr(e)
check(out == 'me', 'an island within an island printed %s' % out)
''')

plant('c16-handler-once', 'C16', [
    (DJ + '__init__.py', '''            model_signals.post_save.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
            )
''', '''            uid = '{0}.{1}'.format(apply_cache, getattr(tags_func, '__name__', ''))
            model_signals.post_save.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False, dispatch_uid=uid
            )
''')],
    'Two registrations for one model with functions of the same name (lambdas).',
    'The second one has no effect when an object is saved.',
    MODELS + '''
registry.register([(Post, lambda obj: ('a',)), (Post, lambda obj: ('b',))])
c = caches['default']
c.set('a', 1, ('a',))
c.set('b', 1, ('b',))
Post(title='x').save()
check(c.get('a') is None and c.get('b') is None, 'one of two registrations has no effect')
''')

plant('c16-single-set', 'C16', [
    (DJ + '__init__.py', '''    if not isinstance(tags, (list, tuple, set, frozenset)):
        tags = (tags, )
    if isinstance(cache_alias''', '''    if not isinstance(tags, (list, tuple)):
        tags = (tags, )
    if isinstance(cache_alias''')],
    'A tags function that returns a frozenset (with more than one registration or not).',
    'The set is used as the name of one tag... unless it is the only argument.',
    MODELS + '''
registry.register([(Post, lambda obj: frozenset(['a', 'b']))])
c = caches['default']
c.set('a', 1, ('a',))
Post(title='x').save()
check(c.get('a') is None, 'the tags of a frozenset were not invalidated')
''')

plant('c16-late-alias', 'C16', [
    (DJ + '__init__.py', '''        for data in model_tags:
            Model = data[0]
            tags_func = data[1]
            apply_cache = len(data) > 2 and data[2] or 'default'
''', '''        apply_cache = 'default'
        for data in model_tags:
            Model, tags_func = data[:2]
            if len(data) > 2:
                apply_cache = data[2] or 'default'
''')],
    'A list of handlers in which one with an alias is followed by one without.',
    'The second handler invalidates the cache of the first one.',
    MODELS + '''
registry.register([(Post, lambda obj: ('a',), 'other'), (Post, lambda obj: ('b',))])
c = caches['default']
c.set('b', 1, ('b',))
Post(title='x').save()
check(c.get('b') is None, 'the handler without alias did not invalidate the default cache')
''')

plant('c17-fixed-temporary', 'C17', [
    (DJ + 'backends.py', '''            fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                       dir=dirname)
''', '''            tmp = fname + self._fs_transaction_suffix
            fd = os.open(tmp, os.O_CREAT | os.O_WRONLY, 0o600)
''')],
    'A store after a process died in the middle of a longer store of the same key, or two stores at a time.',
    'The temporary file is shared, so that the entry is a mixture.',
    '''
from common import *
import tempfile, shutil
d = tempfile.mkdtemp()
caches = setup(caches={'default': {'BACKEND': 'django_cache_dependencies.backends.FileBasedCache', 'LOCATION': d}})
import django_cache_dependencies.backends as b
b.random.random = lambda: 0
native = caches['default'].cache.cache
real = os.rename
other = []


def rename(x, y):
    if not other:
        other.append(1)
        try:
            native.set('k', 'second')
        except Exception as e:
            pass
    return real(x, y)
os.rename = rename
native.set('k', 'first' * 1000)
os.rename = real
try:
    got = native.get('k')
except Exception as e:
    got = repr(e)
shutil.rmtree(d)
check(got in ('first' * 1000, 'second'), 'after two stores at a time the entry reads %r' % str(got)[:60])
''')

plant('c18-falsy', 'C18', [
    (CD + 'cache.py', '''            val = self.get(k, version=version)
            if val is not None:
                d[k] = val
''', '''            val = self.get(k, version=version)
            if val or val == 0:
                d[k] = val
''')],
    'An empty value read by get_many() of an adapter.',
    'It is reported missing.',
    '''
from common import *
setup()
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value

    def delete(self, key, version=None):
        self.d.pop(self.make_key(key, version), None)
c = C()
c.set('e', '')
check(c.get_many(['e']) == {'e': ''}, 'get_many() omits an empty value')
''')

plant('c18-decr-version', 'C18', [
    (CD + 'cache.py', '        return self.incr(key, -delta, version=version)\n', '        return self.incr(key, -delta)\n')],
    'decr() with an explicit version.',
    'Another version is changed.',
    '''
from common import *
setup()
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value

    def delete(self, key, version=None):
        self.d.pop(self.make_key(key, version), None)
c = C()
c.set('n', 5, version=2)
c.set('n', 50)
check(c.decr('n', 2, version=2) == 3 and c.get('n') == 50, 'decr() changed another version')
''')

plant('c18-version-move', 'C18', [
    (CD + 'cache.py', '''        self.set(key, value, version=version + delta)
        self.delete(key, version=version)
        return version + delta
''', '''        self.delete(key, version=version)
        if not self.has_key(key, version=version + delta):
            self.set(key, value, version=version + delta)
        return version + delta
''')],
    'A version move onto a version that exists already.',
    'The old value of the target stays.',
    '''
from common import *
setup()
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value

    def delete(self, key, version=None):
        self.d.pop(self.make_key(key, version), None)
c = C()
c.set('n', 'new', version=1)
c.set('n', 'old', version=2)
c.incr_version('n')
check(c.get('n', version=2) == 'new', 'incr_version() lost the value')
''')

plant('c19-close-order', 'C19', [
    (CD + 'cache.py', '''        except exceptions.DependencyLocked:
            pass
        else:
''', '''        except exceptions.DependencyLocked:
            pass
        except Exception:  # Store it at least for those who have no dependency on the failed cache
            self.cache.set(key, self._pack_data(value, dependency), timeout, version)
            raise
        else:
''')],
    'The backend fails once while the tags of an entry are read.',
    'The entry is stored without versions of its tags, so nothing can invalidate it.',
    '''
from common import *
cache = setup()['default']
native = cache.cache.cache
real = native.get_many
def fail(*a, **k):
    raise IOError
cache.get('k')
native.get_many = fail
try:
    cache.set('k', 1, ('t',))
except IOError:
    pass
native.get_many = real
cache.invalidate_tags('t')
check(cache.get('k') is None, 'an entry whose store failed survives the invalidation of its tag')
''')

plant('c20-shared-local', 'C20', [
    (CD + 'utils.py', '_thread_local = local()\n', "_thread_local = type(str('Context'), (object,), {})()\n")],
    'A second thread of the process.',
    'It is taken for the first one.',
    '''
from common import *
setup()
from cache_dependencies.utils import get_thread_id
check(get_thread_id() != in_thread(get_thread_id), 'two threads have one id')
''')

plant('c20-forked-versions', 'C20', [
    (CD + 'utils.py', '''        randrange(0, MAX_TAG_KEY), get_thread_id(), time.time()
''', '''        randrange(0, MAX_TAG_KEY), _thread.get_ident(), time.time()
'''), (CD + 'utils.py', '''if hasattr(random, 'SystemRandom'):
    randrange = random.SystemRandom().randrange
else:
    randrange = random.randrange
''', '''randrange = random.Random(time.time()).randrange
''')],
    'Two processes forked from one generate a tag version at the same instant.',
    'The versions are equal.',
    '''
from common import *
setup()
from cache_dependencies import utils
Clock()


def child():
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.write(w, utils.generate_tag_version().encode())
        os._exit(0)
    os.waitpid(pid, 0)
    return os.read(r, 1000)
check(child() != child(), 'two forked processes generated equal versions')
''')

plant('c21-inner-scope', 'C21', [
    (DJ + 'middleware.py', '''        """Commits and leaves transaction management."""
        caches[self.cache_alias].transaction.flush()
''', '''        """Commits and leaves transaction management."""
        caches[self.cache_alias].transaction.finish()
''')],
    'A view that leaves a scope open.',
    'The transaction of the request goes on in the next one.',
    PAGES % '' + '''
from django_cache_dependencies.middleware import TransactionMiddleware


def view(request):
    caches['default'].transaction.begin()
    return HttpResponse('')
TransactionMiddleware(view)(factory.get('/'))
check(not caches['default'].transaction.current(), 'a transaction is open after the response')
''')

plant('c21-bookkeeping', 'C21', [
    (DJ + '__init__.py', '''    for cache in caches.all():
        cache.close()
''', '''    for cache in caches.all():
        if cache.transaction.current():
            cache.close()
''')],
    'A request leaves an entry under construction without a transaction being open.',
    'What the next request stores is taken for a fragment of it, and the next build of that entry inherits its tags.',
    '''
from common import *
cache = setup()['default']
from django.core import signals
cache.get('page')
signals.request_finished.send(sender=None)
cache.set('x', 1, ('t',))
signals.request_finished.send(sender=None)
cache.get('page')
cache.set('page', 1, ('p',))
cache.invalidate_tags('t')
check(cache.get('page') == 1, 'the page inherited a tag of another request')
''')
