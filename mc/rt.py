"""The closed system: clock, randomness, cache store, threads.  Imported before django and the repository.

Everything the code under test can observe besides its own state is owned here, so that an execution is a function
of the choices alone.
"""
import _thread
import ast
import builtins
import importlib.machinery
import os
import pickle
import random
import sys
import threading
import time
import weakref

from mc.explore import Violation, Prune, Nondeterminism

REPO = os.environ.get('VERIF_REPO', '/repo')

real_time = time.time
real_sleep = time.sleep
real_Timer = threading.Timer
real_Lock = threading.Lock
real_RLock = threading.RLock
get_ident = _thread.get_ident
getpid = os.getpid
allocate_lock = _thread.allocate_lock

BASE = 1000000000.0
TICK = 2.0 ** -10


# --------------------------------------------------------------------------------------------------------- clock

class Clock(object):
    """now: virtual seconds.  tick: added by every reading (0: the clock is coarse and stands still)."""

    def __init__(self):
        self.reset()

    def reset(self, tick=TICK):
        self.now = BASE
        self.tick = tick
        self.timers = []

    def time(self):
        self.now += self.tick
        return self.now

    def advance(self, seconds):
        """Time passes.  Due timers fire: as schedulable threads under a scheduler, else here and now."""
        end = self.now + seconds
        while True:
            due = [t for t in self.timers if t.due <= end]
            if not due:
                break
            t = min(due, key=lambda t: t.due)
            self.timers.remove(t)
            self.now = max(self.now, t.due)
            if sched is not None:
                sched.spawn(t.body, 'timer')
            else:
                fire(t.body)
        self.now = max(self.now, end)

    def due_now(self):
        """Fire what the ticking of the clock alone has made due."""
        if self.timers and any(t.due <= self.now for t in self.timers):
            self.advance(0)


def fire(body):
    """Runs body in a thread of its own and waits for it."""
    s = Session()
    try:
        s.call(body)
    finally:
        s.stop()


clock = Clock()
time.time = lambda: clock.time()


def _sleep(seconds):
    clock.advance(seconds)


time.sleep = _sleep


class VTimer(threading.Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        threading.Thread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}

    def body(self):
        self.function(*self.args, **self.kwargs)

    def start(self):
        self.due = clock.now + self.interval
        clock.timers.append(self)

    def cancel(self):
        if self in clock.timers:
            clock.timers.remove(self)

    def join(self, timeout=None):
        pass


threading.Timer = VTimer
threading._Timer = VTimer


# ----------------------------------------------------------------------------------------------------- randomness

class CountingRandom(random.Random):
    """Distinct and reproducible: what a good random source provides, without the chance."""
    def __init__(self, *args):
        random.Random.__init__(self, 0)
        self.n = 0

    def _next(self):
        self.n += 1
        return self.n * 1000003 + getpid() * 2 ** 33      # the system's source is not inherited by a fork

    def random(self):
        return (self._next() % 2 ** 53) / 2.0 ** 53

    def seed(self, *a, **kw):
        pass

    def getrandbits(self, k):
        return self._next() % (1 << k)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        width = (stop - start + step - 1) // step
        return start + step * (self._next() % width)

    def randint(self, a, b):
        return self.randrange(a, b + 1)


random.SystemRandom = CountingRandom


# ------------------------------------------------------------------------------------------------------- sessions

class Session(object):
    """A thread that runs closures handed to it, one at a time.  A session of the cache is a thread."""

    def __init__(self, name=None):
        self.name = name
        self.go = allocate_lock()
        self.go.acquire()
        self.done = allocate_lock()
        self.done.acquire()
        self.fn = None
        self.ident = _thread.start_new_thread(self._loop, ())

    def _loop(self):
        while True:
            self.go.acquire()
            fn = self.fn
            if fn is None:
                self.done.release()
                return
            try:
                self.result, self.exc = fn(), None
            except BaseException as e:
                self.result, self.exc = None, e
            self.done.release()

    def call(self, fn):
        self.post(fn)
        return self.wait()

    def post(self, fn):
        self.fn = fn
        self.go.release()

    def wait(self):
        self.done.acquire()
        exc, self.exc = self.exc, None
        if exc is not None:
            raise exc
        return self.result

    def stop(self):
        self.fn = None
        self.go.release()
        self.done.acquire()


_pool = []
_pool_pid = [None]


def sessions(n):
    """n sessions that live as long as this process (so that two of them never share a thread id)."""
    if _pool_pid[0] != getpid():
        del _pool[:]
        _pool_pid[0] = getpid()
    while len(_pool) < n:
        _pool.append(Session('S%d' % len(_pool)))
    return _pool[:n]


# ---------------------------------------------------------------------------------------------------------- store

class BackendError(ConnectionError):
    """An injected failure of the cache server."""


class World(object):
    """What is outside of the code under test: the stores, and the hook called around each backend operation."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.stores = {}
        self.stamps = {}
        self.hook = None            # hook(op, key): before each backend operation
        self.after = None           # after(op, key): after it took effect
        self.split = False          # *_many are one operation per key
        self.ops = []
        self.count = False
        self.strict = False         # keys that memcached does not accept are refused
        self.foreign = False        # a backend object was used by a thread that has not opened it

    def before(self, op, key):
        if self.count:
            self.ops.append((op, key))
        if self.strict and key is not None:
            for k in key if isinstance(key, tuple) else (key,):
                if len(k.encode('utf-8')) > 250 or any(ord(x) < 33 or ord(x) == 127 for x in k):
                    raise BackendError('memcached does not accept the key %r' % k)
        if self.hook is not None:
            self.hook(op, key)

    def done(self, op, key):
        if self.after is not None:
            self.after(op, key)


world = World()
sched = None


def setup(tagging=None, extra_settings=None):
    """Configures django; call once, before anything of the repository is imported."""
    from django.conf import settings
    conf = dict(
        DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'},
                   'second': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
        SECRET_KEY='x',
        CACHES={
            'default': {'BACKEND': 'mc.backend.MemCache', 'LOCATION': 'A', 'TIMEOUT': 600},
            'store': {'BACKEND': 'mc.backend.MemCache', 'LOCATION': 'A', 'TIMEOUT': 600},
            'store2': {'BACKEND': 'mc.backend.MemCache', 'LOCATION': 'B', 'TIMEOUT': 600},
            'adapter': {'BACKEND': 'mc.backend.Adapter', 'LOCATION': 'A'},
            'adapter_p': {'BACKEND': 'mc.backend.Adapter', 'LOCATION': 'A', 'OPTIONS': {'key_prefix': 'q', 'version': 5}},
            'shared': {'BACKEND': 'mc.backend.SharedCache', 'LOCATION': 'SHARED', 'TIMEOUT': 600},
            'file': {'BACKEND': 'django_cache_dependencies.backends.FileBasedCache', 'TIMEOUT': 600,
                     'LOCATION': os.environ.get('MC_SHIM_DIR', '/nonexistent') + '/tagged'},
            'store3': {'BACKEND': 'mc.backend.MemCache', 'LOCATION': 'A', 'TIMEOUT': 600, 'KEY_PREFIX': 'p', 'VERSION': 3},
        },
        CACHE_TAGGING=tagging if tagging is not None else TAGGING,
        INSTALLED_APPS=['django.contrib.contenttypes', 'django_cache_dependencies', 'mc.mc16'],
        MIDDLEWARE_CLASSES=[],
        TEMPLATES=[{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'DIRS': [], 'APP_DIRS': True,
                    'OPTIONS': {'context_processors': [], 'libraries': {}}}],
        ROOT_URLCONF='mc.urls',
        ALLOWED_HOSTS=['*'],
        USE_I18N=False, USE_L10N=False, USE_ETAGS=False, USE_TZ=False,
        DEBUG=False,
        CACHE_MIDDLEWARE_SECONDS=600, CACHE_MIDDLEWARE_ALIAS='default', CACHE_MIDDLEWARE_KEY_PREFIX='',
        LOGGING_CONFIG=None,
    )
    conf.update(extra_settings or {})
    settings.configure(**conf)
    import django
    django.setup()


TAGGING = {}
for _name, _level in (('rc', 'READ COMMITTED'), ('rr', 'REPEATABLE READ'), ('ser', 'SERIALIZABLE'),
                      ('ru', 'READ UNCOMMITTED')):
    for _delay in (0, 2, 12):
        TAGGING['%s%d' % (_name, _delay)] = {'BACKEND': 'store', 'ISOLATION_LEVEL': _level, 'DELAY': _delay}
    TAGGING[_name + 'h'] = {'BACKEND': 'store', 'ISOLATION_LEVEL': _level, 'DELAY': 0.5}
for _name, _level in (('rc', 'READ COMMITTED'), ('rr', 'REPEATABLE READ'), ('ser', 'SERIALIZABLE')):
    TAGGING[_name + 'a0'] = {'BACKEND': 'adapter', 'ISOLATION_LEVEL': _level}
    TAGGING[_name + 'q0'] = {'BACKEND': 'adapter_p', 'ISOLATION_LEVEL': _level}
    TAGGING[_name + 's0'] = {'BACKEND': 'shared', 'ISOLATION_LEVEL': _level}
    TAGGING[_name + 'f0'] = {'BACKEND': 'file', 'ISOLATION_LEVEL': _level}
TAGGING['rc_b'] = {'BACKEND': 'store2', 'ISOLATION_LEVEL': 'READ COMMITTED'}
TAGGING['rc_p'] = {'BACKEND': 'store3', 'ISOLATION_LEVEL': 'READ COMMITTED'}
TAGGING['rr_p'] = {'BACKEND': 'store3', 'ISOLATION_LEVEL': 'REPEATABLE READ'}
TAGGING['rr_b'] = {'BACKEND': 'store2', 'ISOLATION_LEVEL': 'REPEATABLE READ'}


def fresh(tick=TICK):
    """Start of an execution: empty stores, clock at the beginning."""
    global sched
    world.reset()
    clock.reset(tick)
    sched = None


def is_repo_frame(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


# ------------------------------------------------------------------------------------------------------ scheduler

class Abort(BaseException):
    pass


class Deadlock(Violation):
    pass


class Sched(object):
    """Runs bodies as threads, exactly one at a time.  At every point() the running thread asks the chooser who runs
    next; going on costs nothing, switching away from a thread that could go on costs 1."""

    def __init__(self, ch, max_points=4000):
        self.ch = ch
        self.tasks = []
        self.cur = None
        self.exc = None
        self.aborting = False
        self.finished = allocate_lock()
        self.finished.acquire()
        self.alive = 0
        self.started = False
        self.by_ident = {}
        self.points = 0
        self.max_points = max_points
        self.free = set()           # labels at which switching is free
        self.preemption_cost = 1
        self.by_statement = False

    # -- building
    def spawn(self, body, name, session=None):
        t = _Task(self, body, name, len(self.tasks), session)
        self.tasks.append(t)
        if self.started:
            self.alive += 1
            t.begin()
        return t

    # -- running
    def run(self):
        global sched
        sched = self
        self.started = True
        self.alive = len(self.tasks)
        for t in self.tasks:
            t.begin()
        try:
            first = self._pick([t for t in self.tasks if t.ready()], None, 'start')
            self.cur = first
            first.lock.release()
            self.finished.acquire()
            for t in self.tasks:
                t.session.done.acquire()
                if t.owned:
                    t.session.stop()
        finally:
            sched = None
        if self.exc is not None:
            raise self.exc

    def _pick(self, enabled, cur, label):
        if len(enabled) == 1:
            return enabled[0]
        costs = None
        if cur is not None and enabled[0] is cur and label not in self.free:
            costs = [0] + [self.preemption_cost] * (len(enabled) - 1)
        return enabled[self.ch.choose(len(enabled), costs, label)]

    def _fail(self, e):
        if self.exc is None:
            self.exc = e
        self.aborting = True

    def me(self):
        return self.by_ident.get(get_ident())

    def point(self, label):
        """Called by a managed thread: maybe somebody else runs first."""
        t = self.me()
        if t is None:
            return
        if self.aborting:
            raise Abort()
        if t is not self.cur:
            raise RuntimeError('%s runs although it is the turn of %s' % (t.name, self.cur.name))
        self.points += 1
        if self.points > self.max_points:
            self._fail(Violation('livelock: more than %d steps' % self.max_points))
            raise Abort()
        clock.due_now()
        enabled = [t] + [o for o in self.tasks if o is not t and o.ready()]
        try:
            nxt = self._pick(enabled, t, label)
        except BaseException as e:
            self._fail(e)
            raise Abort()
        if nxt is not t:
            self._switch(t, nxt)

    def block(self, label, condition):
        """Waits until condition() holds; others run meanwhile."""
        t = self.me()
        if t is None:
            raise RuntimeError('block() outside of the scheduler')
        while True:
            if self.aborting:
                raise Abort()
            if condition():
                return
            t.condition = condition
            enabled = [o for o in self.tasks if o is not t and o.ready()]
            if not enabled:
                self._fail(Deadlock('deadlock: %s waits for %s and nobody can run' % (t.name, label)))
                raise Abort()
            try:
                nxt = self._pick(enabled, None, label)
            except BaseException as e:
                self._fail(e)
                raise Abort()
            self._switch(t, nxt)
            t.condition = None

    def _switch(self, t, nxt):
        self.cur = nxt
        nxt.lock.release()
        t.lock.acquire()
        if self.aborting:
            raise Abort()

    def task_done(self, t):
        """The thread's body is over (its last action)."""
        t.over = True
        self.alive -= 1
        if self.aborting:
            nxt = next((o for o in self.tasks if not o.over), None)
        else:
            enabled = [o for o in self.tasks if o.ready()]
            if not enabled:
                nxt = next((o for o in self.tasks if not o.over), None)
                if nxt is not None:
                    self._fail(Deadlock('deadlock: %s' % ', '.join(o.name for o in self.tasks if not o.over)))
            else:
                try:
                    nxt = self._pick(enabled, None, 'end')
                except BaseException as e:
                    self._fail(e)
                    nxt = next((o for o in self.tasks if not o.over), None)
        if nxt is None:
            self.finished.release()
        else:
            self.cur = nxt
            nxt.lock.release()


class _Task(object):
    def __init__(self, sched, body, name, index, session):
        self.sched = sched
        self.body = body
        self.name = name
        self.lock = allocate_lock()
        self.lock.acquire()
        self.over = False
        self.condition = None
        self.result = None
        self.owned = session is None
        self.session = session if session is not None else Session(name)

    def ready(self):
        return not self.over and (self.condition is None or self.condition())

    def begin(self):
        self.session.post(self._main)

    def _main(self):
        s = self.sched
        s.by_ident[get_ident()] = self
        try:
            self.lock.acquire()
            if s.aborting:
                return
            self.result = self.body()
        except Abort:
            pass
        except BaseException as e:
            s._fail(e)
        finally:
            del s.by_ident[get_ident()]
            s.task_done(self)


def point(label):
    if sched is not None:
        sched.point(label)


class _Instrument(ast.NodeTransformer):
    """Puts a scheduling point before every statement of every function.  (sys.settrace would do, but switches the
    JIT compiler off.)"""

    def _block(self, stmts, docstring=False):
        out = []
        for i, st in enumerate(stmts):
            self.visit(st)
            if not (i == 0 and docstring and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) \
                    and not isinstance(st, (ast.Global, ast.Nonlocal)):
                p = ast.Expr(ast.Call(ast.Name('__mc_point__', ast.Load()), [], []))
                for n in ast.walk(p):
                    n.lineno, n.col_offset = st.lineno, st.col_offset
                    n.end_lineno, n.end_col_offset = st.lineno, st.col_offset
                out.append(p)
            out.append(st)
        return out

    def visit_FunctionDef(self, node):
        self.inside += 1
        node.body = self._block(node.body, True)
        self.inside -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef
    inside = 0

    def generic_visit(self, node):
        for name, value in ast.iter_fields(node):
            if isinstance(value, list) and value and isinstance(value[0], ast.stmt):
                if self.inside and not isinstance(node, ast.ClassDef):
                    setattr(node, name, self._block(value))
                else:
                    for st in value:
                        self.visit(st)
            elif isinstance(value, list):
                for v in value:
                    if isinstance(v, ast.AST):
                        self.visit(v)
            elif isinstance(value, ast.AST):
                self.visit(value)
        return node


def statement_point():
    if sched is not None and sched.by_statement:
        sched.point('line')


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, **kw):
        tree = _Instrument().visit(ast.parse(data, path))
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, name):
        return self.source_to_code(self.get_data(self.path), self.path)


class _Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] not in ('cache_dependencies', 'django_cache_dependencies') or '.tests' in name:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def instrument():
    """From now on modules of the repository are imported with a scheduling point at every statement."""
    assert not any(m.split('.')[0] in ('cache_dependencies', 'django_cache_dependencies') for m in sys.modules)
    builtins.__mc_point__ = statement_point
    sys.meta_path.insert(0, _Finder)


class CoopLock(object):
    """threading.Lock and RLock for code under test: a thread that finds it taken lets the others run."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0
        self._lock = allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        if sched is not None and sched.me() is not None:
            sched.point('lock')
            while not self._lock.acquire(False):
                if not blocking or timeout is not None and timeout >= 0:
                    return False
                sched.block('lock', lambda: not self._lock.locked())
        elif not self._lock.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._reentrant:
            if self._owner != get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner == get_ident()

    def _at_fork_reinit(self):
        self._lock = allocate_lock()
        self._owner, self._count = None, 0

    def _release_save(self):
        saved = self._count
        self._count = 0
        self._owner = None
        self._lock.release()
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        self._count = saved


def install_locks():
    """After the imports: locks created from now on, by the code under test, are cooperative."""
    threading.Lock = lambda: CoopLock()
    threading.RLock = lambda *a: CoopLock(True)
