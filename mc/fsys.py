"""File system calls of real processes, one at a time: crash, torn write, error or another process at each of them.

The check runs with mc/shim/shim.c interposed between the interpreter and the C library.  Nothing of the code under
test is replaced; where it makes file system calls, and which, is up to it.
"""
import ctypes
import os
import pickle
import shutil
import socket
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
KEY = 'MC_SHIM_DIR'


def install():
    """Restarts this process with the shim; the scratch directory is known by an environment variable."""
    if os.environ.get(KEY):
        return
    root = tempfile.mkdtemp(prefix='mcfs')
    temporary = root + '-tmp'
    os.mkdir(temporary)             # on another file system than the scratch directory, see the shim
    lib = os.path.join(root, 'shim.so')
    try:
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', lib, os.path.join(HERE, 'shim', 'shim.c'), '-ldl'])
    except BaseException:
        shutil.rmtree(root)
        shutil.rmtree(temporary)
        raise
    env = dict(os.environ, LD_PRELOAD=lib)
    env[KEY] = root + '/'
    env['TMPDIR'] = temporary
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'mc.main'] + sys.argv[1:], env=env)
    try:
        code = p.wait()
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(temporary, ignore_errors=True)
    os._exit(code if code >= 0 else 2)


install()
lib = ctypes.CDLL(None)
ROOT = os.environ[KEY].rstrip('/')


def scratch():
    """An empty directory of this worker process."""
    d = os.path.join(ROOT, 'w%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


class Crashed(Exception):
    pass


class Proc(object):
    """A forked process that runs fn; at is its pending file system call, or None when it is over."""

    def __init__(self, fn, directory, name=''):
        self.name = name
        self.crashed = False
        self.result = None
        self.error = None
        self.log = []
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                a.close()
                lib.mcshim_begin(b.fileno(), directory.encode())
                try:
                    out = (fn(), None)
                except Exception as e:
                    out = (None, '%s: %s' % (type(e).__name__, e))
                lib.mcshim_end()
                import threading
                for t in threading.enumerate():
                    if t is not threading.current_thread():
                        t.join()
                b.sendall(b'=\n' + pickle.dumps(out))
                code = 0
            finally:
                os._exit(code)
        b.close()
        self.sock = a
        self.file = a.makefile('rb')
        self._next()

    def _next(self):
        line = self.file.readline()
        if line == b'=\n':
            self.result, self.error = pickle.loads(self.file.read())
            self.at = None
            self._end()
        elif not line:
            self.at = None
            self.crashed = True
            self._end()
        else:
            op, size, a, b = line.decode().split()
            self.at = (op, int(size), a, b)

    def _end(self):
        self.file.close()
        self.sock.close()
        pid, status = os.waitpid(self.pid, 0)
        code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1
        if code not in (0, 77):
            raise RuntimeError('the process ended with %r' % status)

    @property
    def running(self):
        return self.at is not None

    def step(self, command='g'):
        self.log.append(self.at[0])
        self.sock.sendall(command.encode() + b'\n')
        self._next()

    def kill(self):
        if self.at is not None:
            self.step('x')
