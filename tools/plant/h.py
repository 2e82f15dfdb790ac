CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c09-middleware-state', 'C09', [
    (DJ + 'middleware.py', '''        tags = set(tags)
''', '''        self.page_tags = tags = set(tags)
'''), (DJ + 'middleware.py', '''                TagsDependency(tags), self''', '''                TagsDependency(self.page_tags), self''')],
    'Two threads store pages through one middleware object; the second computes its tags while the first is between computing and using its own.',
    'A page gets the tags of a page of another thread.',
    '''
from common import *
caches = setup()
from django.http import HttpResponse
from django.test import RequestFactory
from django_cache_dependencies.middleware import CacheMiddleware
shown = []


def view(request):
    shown.append(request.path)
    return HttpResponse(request.path)


app = CacheMiddleware(view, tags=lambda request: [request.path])
factory = RequestFactory()


def ask(path):
    return app(factory.get(path))


class Slow(object):
    """The tags of a request: while they are collected another thread serves another page."""
    def __iter__(self):
        in_thread(ask, '/b/')
        return iter(['extra'])


first = factory.get('/a/')
first.cache_tagging = Slow()
app(first)
caches['default'].close()
caches['default'].invalidate_tags('/a/')
app(factory.get('/a/'))
check(shown.count('/a/') == 2, 'the page is served after the invalidation of its tag')
''')

plant('c09-node-state', 'C09', [
    (DJ + 'templatetags/cache_tagging_tags.py', '''            prevent = sub_context['cache_tagging_prevent']
''', '''            self.prevent = sub_context['cache_tagging_prevent']
'''), (DJ + 'templatetags/cache_tagging_tags.py', '''            if not prevent:
''', '''            if not self.prevent:
''')],
    'Two threads render one compiled template; one of them prevents caching.',
    'A fragment that was prevented from being cached is stored.',
    '''
from common import *
caches = setup()
from django.template import engines
t = engines['django'].from_string(
    '{% load cache_tagging_tags %}{% cache_tagging n n %}{% if stop %}{% cache_tagging_prevent %}{% endif %}{{ n }}{% end_cache_tagging %}')


class Request(object):
    META = {}

    @property
    def cache_tagging(self):
        in_thread(lambda: t.render({'n': 'other', 'stop': False}))
        return set()


t.render({'n': 'secret', 'stop': True, 'request': Request()})
caches['default'].close()
check(caches['default'].get('secret') is None, 'the prevented fragment was stored')
''')

plant('c19-derived-versions', 'C19', [
    (CD + 'dependencies.py', '''        new_tag_versions = {tag: utils.generate_tag_version() for tag in tags}
''', '''        new_tag_versions = {tag: utils.make_tag_key(tag) for tag in tags}
'''), (CD + 'dependencies.py', '''        tag_keys = list(map(utils.make_tag_key, self.tags))
        cache.delete_many(tag_keys, version=version)
''', '''        # Other than deletion it keeps the working set of the cache server together
        tag_keys = list(map(utils.make_tag_key, self.tags))
        cache.set_many({key: utils.generate_tag_version() for key in tag_keys}, self.TAG_TIMEOUT, version)
''')],
    'The cache server forgets the record of a tag after its invalidation.',
    'The tag gets its first version again, and entries stored before the invalidation come back.',
    '''
from common import *
from cache_dependencies.utils import make_tag_key
caches = setup()
c = caches['default']
c.set('k', 'old', ('t',))
c.invalidate_tags('t')
c.cache.cache.delete(make_tag_key('t'))
c.set('other', 1, ('t',))
check(c.get('k', abort=True) is None, 'the invalidated entry is back')
''')

plant('c06-daemon-timer', 'C06', [
    (CD + 'locks.py', '''        return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()
''', '''        timer = threading.Timer(self._delay, self._release_dependency_target, [dependency, version])
        timer.daemon = True
        return timer.start()
''')],
    'A process (a management command) that ends before the delay of its last transaction has passed.',
    'The delayed invalidation never happens.',
    '''
from common import *
import subprocess, tempfile, shutil
if len(sys.argv) > 1:
    caches = setup('READ COMMITTED', 0.5, caches={'default': {
        'BACKEND': 'django.core.cache.backends.filebased.FileBasedCache', 'LOCATION': sys.argv[1]}})
    c = caches['default']
    if sys.argv[2] == 'write':
        with c.transaction:
            c.invalidate_tags('t')
        c.set('k', 'from the replica', ('t',))
    else:
        check(c.get('k', abort=True) is None, 'the delayed invalidation did not happen')
else:
    d = tempfile.mkdtemp()
    try:
        for what in ('write', 'read'):
            rc = subprocess.call([sys.executable, '-W', 'ignore', __file__, d, what])
            check(rc == 0, what)
    finally:
        shutil.rmtree(d)
''')

plant('c15-shared-namespace', 'C15', [
    (CD + 'nocache.py', '''        def repl(match):
''', '''        _globals = {}
        _globals.update(globals())

        def repl(match):
'''), (CD + 'nocache.py', '''            _globals = {}
            _globals.update(globals())
            _globals['echo'] = echo
''', '''            _globals['echo'] = echo
''')],
    'Two islands in one text, of which the first has data (or assigns a variable) that the second asks for.',
    'An island sees variables of another one.',
    '''
from common import *
setup()
from cache_dependencies.nocache import NoCache
n = NoCache('s')
text = n.start(q=1) + 'echo(q)' + n.end() + n.start() + "echo('q' in globals())" + n.end()
check(n.handle(text) == '1False', 'the second island sees the data of the first')
''')

plant('c01-checked-once', 'C01', [
    (CD + 'cache.py', '''        deferred = dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid:
            return default

        self.finish(key, dependency, version=version)
        return value

    def get_many''', '''        checked = self.relation_manager.current().parent().__dict__.setdefault('checked', {})
        deferred = dependency.validate(self.cache, version)
        try:
            if checked.get((key, version)) != dependency.__dict__.get('tag_versions', ()):
                deferred.get()
        except exceptions.DependencyInvalid:
            return default
        self.finish(key, dependency, version=version)
        if self.relation_manager.current():
            checked[key, version] = dependency.__dict__.get('tag_versions', ())
        return value

    def get_many''')],
    'An entry is read twice while another one is being built, and invalidated in between.',
    'The second read returns the invalidated entry.',
    '''
from common import *
caches = setup()
c = caches['default']
c.set('part', 'old', ('t',))
c.get('page')
c.get('part')
in_thread(lambda: caches['default'].invalidate_tags('t'))
check(c.get('part') is None, 'an invalidated entry is returned while another is being built')
''')

plant('c16-post-delete', 'C16', [
    (DJ + '__init__.py', '''            model_signals.pre_delete.connect(
''', '''            model_signals.post_delete.connect(
''')],
    'A tags function that looks at the objects that refer to the deleted one.',
    'Tags of what is deleted along with the object are not invalidated.',
    '''
from common import *
caches = setup()
from django.db import connection, models
from django_cache_dependencies import CacheRegistry


class A(models.Model):
    class Meta:
        app_label = 'x'


class B(models.Model):
    a = models.ForeignKey(A)

    class Meta:
        app_label = 'x'


with connection.schema_editor() as e:
    e.create_model(A)
    e.create_model(B)
CacheRegistry().register([(A, lambda obj: ['b%d' % b.pk for b in obj.b_set.all()])])
a = A.objects.create()
b = B.objects.create(a=a)
c = caches['default']
c.set('k', 1, ('b%d' % b.pk,))
a.delete()
check(c.get('k', abort=True) is None, 'the tag of a deleted referring object was not invalidated')
''')

plant('c14-prevented-open', 'C14', [
    (DJ + 'templatetags/cache_tagging_tags.py', '''            else:
                cache.abort(cache_name)
''', '''''')],
    'A fragment prevents its caching, another one is rendered later in the same request, and the first is rendered again without prevention.',
    'The first fragment depends on tags of the other one.',
    '''
from common import *
caches = setup()
from django.template import engines
t = engines['django'].from_string(
    '{% load cache_tagging_tags %}{% cache_tagging "a" "ta" %}{% if stop %}{% cache_tagging_prevent %}{% endif %}{% end_cache_tagging %}'
    '{% cache_tagging "b" "tb" %}{% end_cache_tagging %}')
t.render({'stop': True})
t.render({'stop': False})
c = caches['default']
c.invalidate_tags('tb')
check(c.get('a', abort=True) is not None, 'the fragment depends on a tag of another one')
''')
