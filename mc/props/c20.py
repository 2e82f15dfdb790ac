"""Trees of forks and threads, in real processes: who is taken for whom."""
import os
import pickle
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import threading as real_threading

if not os.environ.get('MC_FILES'):
    ROOT = tempfile.mkdtemp(prefix='mcfork', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['MC_FILES'] = os.path.join(ROOT, 'files')

from mc.sut import *
from mc import rt

ASSUMPTIONS = [
    'the system random source is not inherited by a forked process, any other generator is',
    'the clock stands still; hosts have different names and no other shared identity than the numbers of processes and threads',
]


def cleanup():
    shutil.rmtree(ROOT, ignore_errors=True)


def send(sock, obj):
    b = pickle.dumps(obj)
    sock.sendall(struct.pack('<I', len(b)) + b)


def recv(sock):
    def exactly(n):
        out = b''
        while len(out) < n:
            c = sock.recv(n - len(out))
            if not c:
                raise EOFError()
            out += c
        return out
    return pickle.loads(exactly(struct.unpack('<I', exactly(4))[0]))


class Quit(BaseException):
    pass


def agent(path, children):
    """A session: a thread that does what the driver says."""
    sock = socket.socket(socket.AF_UNIX)
    sock.connect(path)
    while True:
        cmd = recv(sock)
        try:
            if cmd[0] == 'fork':
                pid = os.fork()
                if pid == 0:
                    sock.close()
                    serve(path)
                children.append(pid)
                out = None
            elif cmd[0] == 'thread':
                if cmd[1]:
                    real_threading.Thread(target=agent, args=(path, children), name=cmd[1], daemon=True).start()
                else:
                    rt._thread.start_new_thread(agent, (path, children))
                out = None
            elif cmd[0] == 'exit':
                for pid in children:
                    os.waitpid(pid, 0)
                send(sock, ('ok', None))
                os._exit(0)
            else:
                out = perform(*cmd)
            reply = ('ok', out)
        except Exception as e:
            reply = ('error', '%s: %s' % (type(e).__name__, e))
        send(sock, reply)


def serve(path):
    try:
        agent(path, [])
    finally:
        os._exit(1)


def perform(kind, alias, *args):
    c = dcd.caches[alias]
    if kind == 'use':
        c.set('warm', 1, ('warm',), 1000)
    elif kind == 'who':
        return socket.gethostname(), os.getpid(), rt._thread.get_ident()
    elif kind == 'lock':
        c.transaction.begin()
        c.invalidate_tags(args[0])
    elif kind == 'store':
        out = []
        for key, value, tag in args[0]:
            c.set(key, value, (tag,), 1000)
            out.append(c.get(key, None, abort=True))
        return out
    elif kind == 'revive':
        # a new version of each tag; is what was created with an older one valid again
        out = []
        for i, tag in enumerate(args):
            c.invalidate_tags(tag)
            c.set('f', i, (tag,), 1000)
            out.append((c.get('f', None, abort=True) == i, c.get('e-' + tag, None, abort=True) is not None))
        return out
    elif kind == 'end':
        c.close()
    elif kind == 'invalidate':
        c.invalidate_tags(*args)
    elif kind == 'read':
        return c.get(args[0], None, abort=True)
    else:
        raise ValueError(kind)


class Driver(object):
    def __init__(self, ch, alias):
        rt.fresh(tick=0)
        self.ch = ch
        self.alias = alias
        self.thread_name = None
        self.dir = os.environ['MC_FILES']
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.path = os.path.join(self.dir, 'sock')
        self.server = socket.socket(socket.AF_UNIX)
        self.server.bind(self.path)
        self.server.listen(16)
        self.server.settimeout(60)
        self.agents = []            # (socket, owns its process, name)
        self.root = None
        self.programs = []

    def root_process(self):
        pid = os.fork()
        if pid == 0:
            self.server.close()
            serve(self.path)
        self.root = pid
        self.accept(True, '0')

    def program(self, host, pid, ident):
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        self.programs.append(subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'mc.hostagent', self.path, host, str(pid), str(ident)], env=env))

    def accept_programs(self):
        for _ in self.programs:         # in whatever order they are ready
            self.accept(True, '')
        named = sorted((tuple(self.do(i, 'who')), a[0]) for i, a in enumerate(self.agents))
        self.agents = [(s, True, 'thread %d of process %d on %s' % (ident, pid, host)) for (host, pid, ident), s in named]

    def accept(self, process, name):
        s, _ = self.server.accept()
        s.settimeout(60)
        self.agents.append((s, process, name))

    def __call__(self, i, *cmd):
        s = self.agents[i][0]
        send(s, cmd)
        kind, out = recv(s)
        if kind == 'error':
            raise Violation('session %s: %s failed: %s' % (self.agents[i][2], cmd, out))
        return out

    def do(self, i, kind, *args):
        return self(i, kind, self.alias, *args)

    def fork(self, i):
        self(i, 'fork')
        self.accept(True, self.agents[i][2] + '.f%d' % len(self.agents))

    def thread(self, i):
        self(i, 'thread', self.thread_name)
        self.accept(False, self.agents[i][2] + '.t%d' % len(self.agents))

    def stop(self):
        for i in reversed(range(len(self.agents))):
            if self.agents[i][1]:
                try:
                    self(i, 'exit')
                except (EOFError, OSError):
                    pass
        if self.root:
            os.waitpid(self.root, 0)
        for p in self.programs:
            p.wait()
        for s, _, _ in self.agents:
            s.close()
        self.server.close()


def warm_up(alias):
    """Compiles what the sessions will run: they inherit it."""
    def body():
        for i in range(400):
            perform('use', alias)
            perform('lock', alias, 'a')
            perform('store', alias, [('e-%d' % j, 1, 't%d' % j) for j in range(3)])
            perform('end', alias)
            perform('revive', alias, 'x', 'y')
    os.makedirs(os.environ['MC_FILES'], exist_ok=True)
    rt.fresh(tick=0)
    s = rt.Session()
    s.call(body)
    s.stop()


def distinct(d, held):
    """No session of these is taken for another one."""
    n = len(d.agents)
    name = lambda i: d.agents[i][2]
    for i in range(n):
        d.do(i, 'lock', 'late%d' % i)
    tags = [(i, 'late%d' % i) for i in range(n)] + sorted(held.items())
    for j in range(n):
        got = d.do(j, 'store', [('k-%s-%d' % (tag, j), 'by %d' % j, tag) for _, tag in tags])
        for (i, tag), g in zip(tags, got):
            if i == j and g != 'by %d' % j:
                raise Violation('%s was refused a store because of its own invalidation of %s' % (name(i), tag))
            if i != j and g is not None:
                raise Violation('%s is taken for %s: it could store an entry of %s within the transaction that '
                                'has invalidated it' % (name(j), name(i), tag))
    for i in range(n):
        d.do(i, 'end')
    # versions generated at the same moment: an entry must not come back to life
    tags = ['v%d' % i for i in range(n)]
    for i in range(n):
        d.do(i, 'store', [('e-' + tags[i], 1, tags[i])])
    for j in range(n):
        for i, (stored, valid) in enumerate(d.do(j, 'revive', *tags)):
            if not stored:
                raise Violation('%s could not store' % name(j))
            if valid:
                raise Violation('%s and %s generated the same version: an invalidated entry is valid again' % (name(i), name(j)))


def tree(alias, steps, locks):
    def run(ch):
        # every worker process has a directory of its own
        base = os.path.dirname(os.environ['MC_FILES'])
        mine = os.path.join(base, 'files-%d' % os.getpid())
        os.environ['MC_FILES'] = mine
        d = Driver(ch, alias)
        try:
            d.root_process()
            return body(ch, d)
        finally:
            d.stop()

    def body(ch, d):
        if locks and ch.choose(2):
            d.thread_name = 'session'
            ch.note('all threads have the same name')
        if ch.choose(2):
            d.do(0, 'use')
        held = {}
        for step in range(steps):
            n = len(d.agents)
            who = ch.choose(n)
            if locks and who not in held and ch.choose(2):
                held[who] = 'early%d' % who
                d.do(who, 'lock', held[who])
                ch.note('%s begins a transaction' % d.agents[who][2])
            if ch.choose(2):
                d.thread(who)
            else:
                d.fork(who)
            ch.note('%s starts %s' % (d.agents[who][2], d.agents[-1][2]))
            if ch.choose(2):
                d.do(n, 'use')
                ch.note('%s uses the cache' % d.agents[n][2])
        distinct(d, held)
        return tuple(sorted(a[2] for a in d.agents))
    return run


def hosts(alias):
    """One cache server for many hosts: processes and threads of different hosts can have the same numbers."""
    def run(ch):
        base = os.path.dirname(os.environ['MC_FILES'])
        os.environ['MC_FILES'] = os.path.join(base, 'files-%d' % os.getpid())
        d = Driver(ch, alias)
        try:
            d.server.settimeout(300)
            for host in ('h1', 'h2'):
                for pid in (7, 8):
                    for ident in (98, 99):
                        d.program(host, pid, ident)
            d.accept_programs()
            used = ch.choose(2)
            held = {}
            for i in range(len(d.agents)):
                if used:
                    d.do(i, 'use')
                held[i] = 'early%d' % i
                d.do(i, 'lock', held[i])
            distinct(d, held)
            return used
        finally:
            d.stop()
    return run


def harnesses(tier):
    warm_up('rrs0')
    deep = tier == 'thorough'
    return [
        Harness('trees', tree('rrs0', 3 if deep else 2, True), about='all trees of forks and threads of 3 (thorough: 4) sessions, transactions open meanwhile'),
        Harness('deeper trees', tree('rrs0', 4 if deep else 3, False), about='all trees of 4 (thorough: 5) sessions'),
        Harness('hosts', hosts('rrs0'), about='two threads of two processes of two hosts, numbered alike (real programs, told other numbers and host names)'),
        Harness('serializable', tree('sers0', 2, True), about='SERIALIZABLE'),
    ]
