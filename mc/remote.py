"""Other programs that use the same cache server, each with hash values and memory of its own.

The server is rt.world of the caller: it is sent along with each call and comes back with the result.
A program starts once per worker; each execution is served by a fresh fork of it.
python -m mc.remote SOCKET"""
import marshal
import os
import pickle
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile

from mc import rt

_programs = []          # (Popen, path)
_dir = []


def send(sock, obj):
    b = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
    sock.sendall(struct.pack('<I', len(b)) + b)


def recv(sock):
    def exactly(n):
        out = b''
        while len(out) < n:
            c = sock.recv(n - len(out))
            if not c:
                raise EOFError()
            out += c
        return out
    return pickle.loads(exactly(struct.unpack('<I', exactly(4))[0]))


COPIES = 4          # of each program, as forking is slow


def start(n):
    """Starts the programs; call it before the workers are forked, they share them."""
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix='mcremote', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None))
    while len(_programs) < n * COPIES:
        number = len(_programs) // COPIES
        path = os.path.join(_dir[0], str(len(_programs)))
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p), PYTHONHASHSEED=str(1000 + number))
        _programs.append((subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'mc.remote', path], env=env,
                                           stdin=subprocess.PIPE), path))


def cleanup():
    for p, path in _programs:
        p.stdin.close()
        p.wait()
    for d in _dir:
        shutil.rmtree(d, ignore_errors=True)
    del _programs[:], _dir[:]


def connect(number):
    path = _programs[number * COPIES + rt.getpid() % COPIES][1]
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(300)
    for _ in range(12000):
        try:
            s.connect(path)
            return s
        except OSError:
            rt.real_sleep(0.01)
    raise RuntimeError('program %d does not answer' % number)


class Remote(object):
    """A cache object in another program: its methods, by name.  Serves one execution."""

    def __init__(self, number, alias):
        self.sock = connect(number)
        self.alias = alias

    def __call__(self, name, *args, **kw):
        stores = {k: dict(v) for k, v in rt.world.stores.items()}
        send(self.sock, (self.alias, name, args, kw, marshal.dumps(stores), rt.clock.now, rt.clock.tick))
        ok, result, stores, now = recv(self.sock)
        rt.world.stores.clear()
        rt.world.stores.update(marshal.loads(stores))
        rt.clock.now = now
        if not ok:
            raise result
        return result

    def set(self, *a, **kw):
        return self('set', *a, **kw)

    def get(self, *a, **kw):
        return self('get', *a, **kw)

    def get_many(self, *a, **kw):
        return self('get_many', *a, **kw)

    def set_many(self, *a, **kw):
        return self('set_many', *a, **kw)

    def delete(self, *a, **kw):
        return self('delete', *a, **kw)

    def invalidate_tags(self, *a, **kw):
        return self('invalidate_tags', *a, **kw)

    def invalidate_dependency(self, *a, **kw):
        return self('invalidate_dependency', *a, **kw)

    def close(self):
        return self('close')

    @property
    def transaction(self):
        return RemoteTransaction(self)

    def get_or_set_callback(self, key, callback, *a, **kw):
        """Calls the callback here, once the program has called its own."""
        computed, value = self('compute', key, *a, **kw)
        if computed:
            value = callback()
            self('computed', value)
        return value


class RemoteTransaction(object):
    def __init__(self, cache):
        self.cache = cache

    def begin(self):
        return self.cache('transaction.begin')

    def finish(self):
        return self.cache('transaction.finish')

    def flush(self):
        return self.cache('transaction.flush')


def serve(sock):
    from mc.sut import CacheCollection
    caches = CacheCollection()
    pending = []
    while True:
        try:
            alias, name, args, kw, stores, now, tick = recv(sock)
        except EOFError:
            return
        rt.world.stores.clear()
        rt.world.stores.update(marshal.loads(stores))
        rt.clock.now, rt.clock.tick = now, tick
        c = caches[alias]
        ok = True
        try:
            if name == 'compute':
                # runs up to the callback; 'computed' does the rest
                key, rest = args[0], args[1:]
                value = c.get(key)
                if value is None:
                    pending.append((key, rest, kw))
                result = value is None, value
            elif name == 'computed':
                key, rest, kw = pending.pop()
                result = c.set(key, args[0], *rest, **kw)
            else:
                f = c
                for part in name.split('.'):
                    f = getattr(f, part)
                result = f(*args, **kw)
                if name.startswith('transaction'):
                    result = None
        except Exception as e:
            ok, result = False, e
        send(sock, (ok, result, marshal.dumps({k: dict(v) for k, v in rt.world.stores.items()}), rt.clock.now))


_elsewhere = [None]


def invalidating(run):
    """The invalidations of the execution are done by another program."""
    def wrapped(ch):
        _elsewhere[0] = {}
        try:
            return run(ch)
        finally:
            for r in _elsewhere[0].values():
                r.sock.close()
            _elsewhere[0] = None
    return wrapped


def invalidator(cache, alias):
    """Who invalidates: cache itself, or the cache of that alias of another program."""
    if _elsewhere[0] is None:
        return cache
    if alias not in _elsewhere[0]:
        _elsewhere[0][alias] = Remote(0, alias)
    return _elsewhere[0][alias]


def warm_up():
    from mc.sut import CacheCollection
    rt.fresh()
    for i in range(300):
        c = CacheCollection()['rr0']
        c.transaction.begin()
        c.invalidate_tags('a')
        c.set('x', i, ('a', 'b'), 100)
        c.get('x')
        c.get_many(['x', 'y'])
        c.transaction.finish()


def main(path):
    warm_up()
    server = socket.socket(socket.AF_UNIX)
    server.bind(path)
    server.listen(16)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    rt._thread.start_new_thread(lambda: (sys.stdin.read(), os._exit(0)), ())      # ends with its starter
    while True:
        sock, _ = server.accept()
        if os.fork() == 0:
            server.close()
            try:
                serve(sock)
            finally:
                os._exit(0)
        sock.close()


if __name__ == '__main__':
    main(sys.argv[1])
