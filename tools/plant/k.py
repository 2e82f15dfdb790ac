CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRELUDE = '''
import os, subprocess, sys, tempfile, shutil
from common import *


def program(directory, level, hash_seed):
    """Another program that runs the lines it is sent."""
    code = """
import sys
sys.path.insert(0, %r)
from common import *
caches = setup(%r, caches={'default': {'BACKEND': 'django.core.cache.backends.filebased.FileBasedCache', 'LOCATION': %r}})
c = caches['default']
while True:
    line = sys.stdin.readline()
    if not line:
        break
    print(repr(eval(line)))
    sys.stdout.flush()
""" % (os.path.dirname(os.path.abspath(__file__)), level, directory)
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         env=dict(os.environ, PYTHONHASHSEED=str(hash_seed)))

    def call(line):
        p.stdin.write((line + '\\n').encode())
        p.stdin.flush()
        return eval(p.stdout.readline())
    return call


directory = tempfile.mkdtemp()
'''

plant('c01-hash-key', 'C01', [
    (CD + 'utils.py', '''    name = hashlib.md5(str(name).encode('utf-8')).hexdigest()
    return''', '''    name = format(hash(str(name)) & (MAX_TAG_KEY - 1), 'x')
    return''')],
    'Two programs with different hash values (PYTHONHASHSEED) on one cache server.',
    'The tag has another key in each program, so an invalidation in one does not reach entries stored by the other.',
    PRELUDE + '''
try:
    a, b = program(directory, 'READ COMMITTED', 1), program(directory, 'READ COMMITTED', 2)
    a("c.set('k', 1, ('t',), 1000)")
    check(a("c.get('k')") == 1, 'not stored')
    b("c.invalidate_tags('t')")
    got = a("c.get('k')")
finally:
    shutil.rmtree(directory)
check(got is None, 'an entry survives the invalidation by another program')
''')

plant('c07-local-locks', 'C07', [
    (CD + 'dependencies.py', '''        state = AcquiredTagState(transaction)
        cache.set_many''', '''        state = AcquiredTagState(transaction)
        self._ever_acquired.update(self.tags)
        cache.set_many'''),
    (CD + 'dependencies.py', '''    TAG_STATE_TIMEOUT = 5

    def __init__(self, *tags):''', '''    TAG_STATE_TIMEOUT = 5
    _ever_acquired = set()  # Most tags are never locked, nothing to look up then

    def __init__(self, *tags):'''),
    (CD + 'dependencies.py', '''        for tag in self.tags:
            state = acquired_tag_states.get(tag)''', '''        for tag in self.tags & self._ever_acquired:
            state = acquired_tag_states.get(tag)'''),
    ],
    'A tag that was never locked by this program, and is locked by another one.',
    'The lock of another program is ignored.',
    PRELUDE + '''
try:
    a, b = program(directory, 'REPEATABLE READ', 1), program(directory, 'REPEATABLE READ', 1)
    b("c.get('warm')")
    b("c.close()")
    a("c.transaction.begin() and None")
    a("c.invalidate_tags('t')")
    b("c.set('k', 1, ('t',), 1000)")
    got = b("c.get('k')")
    a("c.transaction.finish()")
finally:
    shutil.rmtree(directory)
check(got is None, 'an entry was stored while another program held its tag')
''')

plant('c06-idle-end', 'C06', [
    (CD + 'locks.py', '''        dependency.evaluate(self._cache(), transaction, version)
''', '''        dependency.evaluate(self._cache(), transaction, version)
        DependencyLock.evaluated += 1
'''),
    (CD + 'locks.py', '''        self._cache = thread_safe_cache_accessor
        self._delay = delay  # For master/slave
''', '''        self._cache = thread_safe_cache_accessor
        self._delay = delay  # For master/slave
        self._evaluated_before = {}
'''),
    (CD + 'locks.py', '''class DependencyLock(interfaces.IDependencyLock):
''', '''class DependencyLock(interfaces.IDependencyLock):

    evaluated = 0  # How many times anything was stored, by any thread
'''),
    (CD + 'locks.py', '''    """Tag Lock for Read Committed transaction isolation level."""
    def release(''', '''    """Tag Lock for Read Committed transaction isolation level."""

    def acquire(self, dependency, transaction, version):
        """
        :type dependency: cache_dependencies.interfaces.IDependency
        :type transaction: cache_dependencies.interfaces.ITransaction
        :type version: int or None
        """
        self._evaluated_before.setdefault(transaction, DependencyLock.evaluated)

    def release('''),
    (CD + 'locks.py', '''        self._release_dependency_target(dependency, version)
        super''', '''        if self._evaluated_before.get(transaction) != DependencyLock.evaluated:  # Otherwise there is nothing to drop
            self._release_dependency_target(dependency, version)
        super'''),
    ],
    'READ COMMITTED; the entry is stored by another program between the invalidation and the end of the transaction.',
    'The invalidation is not repeated at the end if this program has not stored anything since.',
    PRELUDE + '''
try:
    a, b = program(directory, 'READ COMMITTED', 1), program(directory, 'READ COMMITTED', 1)
    a("c.transaction.begin() and None")
    a("c.invalidate_tags('t')")
    b("c.set('k', 'old', ('t',), 1000)")
    a("c.transaction.finish()")
    got = b("c.get('k')")
finally:
    shutil.rmtree(directory)
check(got is None, 'an entry stored by another program survives the end of the transaction')
''')

plant('c03-remembered-hit', 'C03', [
    (CD + 'cache.py', '''        value, dependency = self._unpack_data(data)

        deferred''', '''        value, dependency = self._unpack_data(data)
        if self._is_packed_data(data):
            inherited = self._inherited.setdefault((key, version), dependency)
        else:
            inherited = dependency
        deferred'''),
    (CD + 'cache.py', '''        self.finish(key, dependency, version=version)
        return value

    def get_many''', '''        self.finish(key, inherited, version=version)
        return value

    def get_many'''),
    (CD + 'cache.py', '''            return self.cache.set(key, self._pack''', '''            self._inherited.pop((key, version), None)
            return self.cache.set(key, self._pack'''),
    (CD + 'cache.py', '''    """Supports for Django dependency."""
''', '''    """Supports for Django dependency."""

    _inherited = {}  # One object per key, not one per hit
'''),
    ],
    'A fragment that was read here, then stored with other tags by another program, then read while a composite is built.',
    'The composite inherits the tags of the former store.',
    PRELUDE + '''
try:
    a, b = program(directory, 'READ COMMITTED', 1), program(directory, 'READ COMMITTED', 1)
    a("c.set('f', 1, ('t',), 1000)")
    a("c.get('f', abort=True)")
    b("c.set('f', 2, ('u',), 1000)")
    a("c.get('top')")
    a("c.get('f')")
    a("c.set('top', 1, ('x',), 1000)")
    b("c.invalidate_tags('u')")
    got = a("c.get('top', abort=True)")
finally:
    shutil.rmtree(directory)
check(got is None, 'the composite survives the invalidation of the tag of its fragment')
''')
