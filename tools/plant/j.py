CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c08-decorated-thread', 'C08', [
    (DJ + '__init__.py', '''    transaction = DefaultTransactionProxy()

''', '''    @property
    def transaction(self):
        return caches[DEFAULT_CACHE_ALIAS].transaction

''')],
    'A function decorated with @cache.transaction in one thread (at import) and called in another.',
    'The call fails, because the transaction manager of the importing thread is used.',
    '''
from common import *
caches = setup()
from django_cache_dependencies import cache


@cache.transaction
def f():
    return bool(caches['default'].transaction.current())


check(f(), 'no transaction')
try:
    check(in_thread(f), 'no transaction in the other thread')
except RuntimeError as e:
    check(False, str(e))
''')

plant('c15-json', 'C15', [
    (CD + 'nocache.py', '''    def pickle(self, data):
        return''', '''    def pickle(self, data):
        try:
            text = json.dumps(data, sort_keys=True)
            if json.loads(text) == data:  # Shorter, and the same on each version of Python
                return base64.standard_b64encode(b'j' + text.encode('utf-8')).decode('ascii')
        except (TypeError, ValueError):
            pass
        return'''), (CD + 'nocache.py', '''        return pickle.loads(base64.standard_b64decode(value.encode('ascii')))
''', '''        data = base64.standard_b64decode(value.encode('ascii'))
        if data[:1] == b'j':
            return json.loads(data[1:].decode('utf-8'))
        return pickle.loads(data)
'''), (CD + 'nocache.py', '''import base64
''', '''import json
import base64
''')],
    'Data that equal what JSON makes of them, but have another type (True == 1 and the like do not differ, but marked safe strings do).',
    'The island sees another type.',
    '''
from common import *
setup()
from django.utils.safestring import mark_safe
from cache_dependencies.nocache import NoCache
n = NoCache('s')
text = n.start(v=mark_safe('<b>')) + 'echo(type(v).__name__)' + n.end()
check(n.handle(text) == type(mark_safe('')).__name__, 'a safe string is not safe any more in the island')
''')

plant('c16-weak', 'C16', [
    (DJ + '__init__.py', '''            model_signals.pre_delete.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
            )
''', '''            model_signals.pre_delete.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model
            )
''')],
    'A garbage collection between registration and the deletion.',
    'The handler is gone.',
    '''
from common import *
import gc
caches = setup()
from django.db import connection, models
from django_cache_dependencies import CacheRegistry


class A(models.Model):
    class Meta:
        app_label = 'x'


with connection.schema_editor() as e:
    e.create_model(A)
CacheRegistry().register([(A, lambda obj: 'a')])
gc.collect()
a = A.objects.create()
c = caches['default']
c.set('k', 1, ('a',))
a.delete()
check(c.get('k', abort=True) is None, 'a deletion did not invalidate the tag')
''')

plant('c06-serializable', 'C06', [
    (CD + 'locks.py', '''class SerializableDependencyLock(RepeatableReadDependencyLock):
    """Tag Lock for Serializable transaction isolation level."""
''', '''class SerializableDependencyLock(RepeatableReadDependencyLock):
    """Tag Lock for Serializable transaction isolation level."""
    def release(self, dependency, transaction, version):
        # Nobody else can have stored anything
        dependency.release(self._cache(), transaction, self._delay, version)
''')],
    'SERIALIZABLE, and a store by the transaction itself.',
    'What a transaction that is rolled back has stored stays readable.',
    '''
from common import *
caches = setup('SERIALIZABLE')
c = caches['default']
c.transaction.begin()
c.invalidate_tags('t')
c.set('k', 'uncommitted', ('t',))
c.transaction.finish()
check(c.get('k', abort=True) is None, 'an entry stored within the transaction is readable after its end')
''')

plant('c13-head-body', 'C13', [
    (DJ + 'utils.py', '''        cache.set(cache_key, headerlist, tags, cache_timeout)  # patched
        return _generate_cache_key(request, request.method, headerlist, key_prefix)
''', '''        cache.set(cache_key, headerlist, tags, cache_timeout)  # patched
        return _generate_cache_key(request, 'GET', headerlist, key_prefix)
''')],
    'A view that answers HEAD without a body, with a Vary header; HEAD before GET.',
    'GET is answered by the page stored for HEAD.',
    '''
from common import *
caches = setup()
from django.http import HttpResponse
from django.test import RequestFactory
from django_cache_dependencies.decorators import cache_page


@cache_page(600, tags=lambda r: ())
def view(request):
    response = HttpResponse('' if request.method == 'HEAD' else 'body')
    response['Vary'] = 'Cookie'
    return response


f = RequestFactory()
view(f.head('/'))
caches['default'].close()
check(view(f.get('/')).content == b'body', 'GET is answered by the page of HEAD')
''')

plant('c03-first-parent', 'C03', [
    (CD + 'relations.py', '''        if node.parent() is self._current:
            return True
''', '''        if node.parent() is self._current or not node.parent():
            return True
''')],
    'A batched read at the top level leaves a missing entry, which is then built while another one is being built.',
    'The outer entry does not inherit the tags of the inner one.',
    '''
from common import *
caches = setup()
c = caches['default']
c.get_many(['part'])
c.get('page')
c.set('part', 1, ('t',))
c.set('page', 1, ('p',))
c.close()
c.invalidate_tags('t')
check(c.get('page', abort=True) is None, 'the page survives the invalidation of a tag of its part')
''')
