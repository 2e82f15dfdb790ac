CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c05-fraction-delay', 'C05', [
    (CD + 'dependencies.py', '''        self.delay = delay

''', '''        self.delay = int(delay)

''')],
    'A replication delay that is not a whole number of seconds.',
    'Transactions that start within the fraction after the end of the write transaction may store outdated entries.',
    '''
from common import *
caches = setup('REPEATABLE READ', 0.5)
clock = Clock()
cache = caches['default']
cache.transaction.begin()
cache.invalidate_tags('t')
clock.t += 1
cache.transaction.finish()
clock.t += 0.3  # the replica still shows the old data
in_thread(lambda: caches['default'].set('k', 'old', ('t',)))
clock.t += 10
check(cache.get('k', abort=True) is None, 'an entry stored within the delay is readable')
''')

plant('c06-fraction-timer', 'C06', [
    (CD + 'locks.py', '''        return threading.Timer(self._delay, self._release''', '''        return threading.Timer(int(self._delay), self._release''')],
    'A replication delay that is not a whole number of seconds.',
    'The second invalidation comes too early, so that an entry built from the replica stays.',
    '''
from common import *
import time
import cache_dependencies.locks as locks
caches = setup('READ COMMITTED', 0.5)
seen = []
real = threading.Timer


def Timer(delay, f, args=(), kwargs=None):
    seen.append(delay)
    return real(60, f, args, kwargs)


threading.Timer = Timer
cache = caches['default']
cache.transaction.begin()
cache.invalidate_tags('t')
cache.transaction.finish()
check(seen and all(d >= 0.5 for d in seen), 'the invalidation is repeated after %s s instead of 0.5' % seen)
os._exit(0)
''')

plant('c06-default-version', 'C06', [
    (CD + 'transaction.py', '''        assert isinstance(dependency, interfaces.IDependency)
        if version not in self._dependencies:
''', '''        assert isinstance(dependency, interfaces.IDependency)
        version = version or 1  # The default of cache backends
        if version not in self._dependencies:
''')],
    'A cache whose settings give another default VERSION, and a transaction.',
    'The end of the transaction invalidates in version 1 instead of the default version.',
    '''
from common import *
caches = setup(caches={'default': {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache', 'VERSION': 3}})
cache = caches['default']
cache.transaction.begin()
cache.invalidate_tags('t')
in_thread(lambda: caches['default'].set('k', 'old', ('t',)))
cache.transaction.finish()
check(cache.get('k', abort=True) is None, 'an entry stored during the transaction outlived it')
''')

plant('c07-lock-after-delete', 'C07', [
    (CD + 'cache.py', '''        self.transaction.current().add_dependency(dependency, version=version)
        dependency.invalidate(self.cache, version)
''', '''        dependency.invalidate(self.cache, version)
        self.transaction.current().add_dependency(dependency, version=version)
''')],
    'Another session stores between the deletion of the versions and the lock.',
    'The entry holds the old data and is readable while the transaction runs.',
    '''
from common import *
caches = setup('REPEATABLE READ')
cache = caches['default']
native = cache.cache.cache
real = native.set_many


def set_many(data, *a, **kw):
    if any('acquired' in k for k in data):
        del native.set_many
        in_thread(lambda: caches['default'].set('k', 'old', ('t',)))
    return real(data, *a, **kw)


native.set_many = set_many
cache.transaction.begin()
cache.invalidate_tags('t')
check(cache.get('k', abort=True) is None, 'an entry with the old data is readable within the transaction')
cache.transaction.finish()
''')

ADAPTER = '''
from common import *
setup()
from cache_dependencies.cache import AbstractCache


class A(AbstractCache):
    def __init__(self):
        self.d, self.timeouts = {}, {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.timeouts[key] = timeout
        if timeout is not None and timeout <= 0:
            self.delete(key, version)
        else:
            self.d[self.make_key(key, version)] = value

    def delete(self, key, version=None):
        self.d.pop(self.make_key(key, version), None)


a = A()
'''
plant('c18-incr-zero', 'C18', [
    (CD + 'cache.py', '''        if value is None:
            raise ValueError("Key '%s' not found" % key)
        new_value''', '''        if not value:
            raise ValueError("Key '%s' not found" % key)
        new_value''')],
    'A counter at zero.',
    'It can not be incremented.',
    ADAPTER + '''
a.set('n', 1)
a.decr('n')
try:
    check(a.incr('n', 5) == 5, 'incr')
except ValueError:
    check(False, 'the counter at zero is not found')
''')

plant('c18-zero-timeout', 'C18', [
    (CD + 'cache.py', '''            self.set(key, value, timeout=timeout, version=version)
''', '''            self.set(key, value, timeout=timeout or None, version=version)
''')],
    'A batch stored with the timeout 0, which means that the entries expire at once.',
    'They live for the default time.',
    ADAPTER + '''
a.set('x', 1)
a.set_many({'x': 2, 'y': 3}, 0)
check(a.get('x') is None and a.get('y') is None, 'entries with no time to live are there')
''')

MODEL = '''
from common import *
caches = setup()
from django.db import connections, connection, models
from django_cache_dependencies import registry


class Thing(models.Model):
    class Meta:
        app_label = 'x'


with connection.schema_editor() as e:
    e.create_model(Thing)
cache = caches['default']
'''
plant('c16-raw', 'C16', [
    (DJ + '__init__.py', '''    obj = kwargs['instance']
''', '''    if kwargs.get('raw'):  # Related objects may be missing yet
        return
    obj = kwargs['instance']
''')],
    'An object saved by loaddata, or restored by a deserializer.',
    'Its tags are not invalidated.',
    MODEL + '''
registry.register([(Thing, lambda obj: 'thing')])
cache.set('a', 1, ('thing',))
from django.core import serializers
from django.apps import apps
apps.get_model = lambda *a, **kw: Thing
for o in serializers.deserialize('json', '[{"model": "x.thing", "pk": 5, "fields": {}}]'):
    o.save()
check(Thing.objects.count() == 1, 'saved')
check(cache.get('a', abort=True) is None, 'the entry survives the load')
''')

plant('c16-no-change', 'C16', [
    (DJ + '__init__.py', '''    obj = kwargs['instance']
''', '''    obj = kwargs['instance']
    if kwargs.get('update_fields') is not None and not kwargs['update_fields'] & set(vars(obj)):
        return
''')],
    'An object is saved with update_fields, all of which are deferred or properties by another attribute name, like a foreign key.',
    'Its tags are not invalidated.',
    MODEL + '''
class Part(models.Model):
    thing = models.ForeignKey(Thing, null=True)

    class Meta:
        app_label = 'x'


with connection.schema_editor() as e:
    e.create_model(Part)
registry.register([(Part, lambda obj: 'part')])
t, p = Thing.objects.create(), Part.objects.create()
p = Part.objects.get(pk=p.pk)
cache.set('a', 1, ('part',))
p.thing_id = t.pk
p.save(update_fields=['thing'])
check(Part.objects.get(pk=p.pk).thing_id == t.pk, 'saved')
check(cache.get('a', abort=True) is None, 'the entry survives the save')
''')

plant('c14-frozen', 'C14', [
    (DJ + 'templatetags/cache_tagging_tags.py', '''        if len(tags) == 1 and isinstance(tags[0], (list, tuple, set, frozenset)):
''', '''        if len(tags) == 1 and isinstance(tags[0], (list, tuple, set)):
''')],
    'The body adds a frozenset of tags.',
    'The fragment depends on the set as one tag and not on its members.',
    '''
from common import *
cache = setup()['default']
from django.template import engines
t = engines['django'].from_string("{% load cache_tagging_tags %}{% cache_tagging 'f' %}{{ v }}{% cache_add_tags more %}{% end_cache_tagging %}")
check(t.render({'v': 1, 'more': frozenset(['x', 'y'])}, None) == '1', 'first')
cache.invalidate_tags('x')
check(t.render({'v': 2, 'more': frozenset(['x', 'y'])}, None) == '2', 'the fragment is served after the invalidation')
''')

plant('c03-refused-fragment', 'C03', [
    (CD + 'cache.py', '''            return self.cache.set(key, self._pack_data(value, combined_dependency_with_descendants), timeout, version)
        finally:
            self.finish(key, dependency, version=version)
''', '''            result = self.cache.set(key, self._pack_data(value, combined_dependency_with_descendants), timeout, version)
            self.finish(key, dependency, version=version)
            return result
''')],
    'A store is refused because of a lock, or fails, while a composite is under construction.',
    'The composite does not inherit the tags of the fragment, and is left below it.',
    '''
from common import *
caches = setup('REPEATABLE READ')
cache = caches['default']
gate, done = threading.Event(), threading.Event()


def other():
    c = caches['default']
    c.transaction.begin()
    c.invalidate_tags('t')
    gate.set()
    done.wait(20)
    c.close()


t = threading.Thread(target=other)
t.start()
gate.wait(20)
cache.get('composite')
cache.get('fragment')
cache.set('fragment', 1, ('t', 'u'))   # refused
cache.set('composite', 1, ())          # contains it
stored = cache.get('composite', abort=True)
done.set()
t.join(20)
cache.invalidate_tags('u')
check(stored is None and cache.get('composite', abort=True) is None, 'the composite was stored without the tags of its fragment')
''')
