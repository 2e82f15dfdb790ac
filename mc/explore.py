"""Exhaustive exploration of a choice tree, by stateless replay.

A *harness* is a function ``run(ch)``: it builds a fresh system out of the real code, asks ``ch.choose(n)``
wherever the environment, the scheduler or the driver has n alternatives, checks its oracle (raising Violation) and
returns a hashable outcome.  ``explore`` executes it once per leaf of the choice tree - depth first, every
alternative of every choice - so the number of executions is the number of distinct behaviours, not a sample.

Costs: an alternative may carry a cost (a preemption, an injected fault).  Alternatives that would exceed the
harness's bound are not taken; everything below the bound is taken.

A replayed prefix must offer the same number of alternatives as when it was recorded; anything else is
nondeterminism that the harness did not capture and stops the check with an error (never with a verdict).
"""
import mmap
import os
import pickle
import struct
import sys
import time as _time
import traceback

now = _time.time        # the real clock: bound before rt.py replaces time.time


class Violation(Exception):
    """The property does not hold on this execution."""


class Prune(BaseException):
    """This execution is redundant (equivalent to one explored elsewhere) or outside the bound: drop it."""


class Nondeterminism(BaseException):
    pass


class Chooser(object):
    """Follows a prefix, then takes alternative 0 everywhere."""

    def __init__(self, prefix=(), bound=None):
        self.prefix = prefix            # [(alternative, n)]
        self.trace = []                 # [(alternative, n, costs or None)]
        self.labels = []
        self.spent = 0
        self.bound = bound
        self.log = None                 # replay only

    def choose(self, n, costs=None, label=None):
        i = len(self.trace)
        if i < len(self.prefix):
            c, m = self.prefix[i]
            if m is not None and m != n or c >= n:
                raise Nondeterminism('choice %d: %d alternatives now, %r when recorded (label %r)' % (i, n, m, label))
        else:
            c = 0
        self.trace.append((c, n, costs))
        if costs is not None:
            self.spent += costs[c]
        return c

    def affordable(self, cost):
        return self.bound is None or self.spent + cost <= self.bound

    def pick(self, items, costs=None, label=None):
        return items[self.choose(len(items), costs, label)]

    def fresh(self):
        """False while the recorded prefix, except its last choice, is being repeated: what is observed there has
        been checked by an earlier execution."""
        return len(self.trace) >= len(self.prefix)

    def note(self, text):
        if self.log is not None:
            self.log.append(text)


class Stats(object):
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.nodes = 0            # distinct choice-tree nodes (states of the exploration)
        self.steps = 0            # choices executed (transitions), replays included
        self.max_depth = 0
        self.outcomes = {}
        self.capped = False
        self.last = None          # the choices of one execution, for samples
        self.violations = []      # (harness name, message, prefix)

    def merge(self, o):
        self.executions += o.executions
        self.pruned += o.pruned
        self.nodes += o.nodes
        self.steps += o.steps
        self.max_depth = max(self.max_depth, o.max_depth)
        for k, v in o.outcomes.items():
            if k in self.outcomes or len(self.outcomes) < 200000:
                self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.capped = self.capped or o.capped
        self.violations += o.violations
        if self.last is None or o.last is not None and len(o.last) > len(self.last):
            self.last = o.last


def foreign_error(tb):
    repo = os.environ.get('VERIF_REPO', '/repo') + '/'
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(repo):
            return True
        tb = tb.tb_next
    return False


def shorten(text):
    return text if len(text) < 6000 else text[:3000] + '\n    ...\n' + text[-3000:]


def execute(run, prefix, bound, log=None):
    ch = Chooser(prefix, bound)
    ch.log = log
    out, vio = None, None
    try:
        out = run(ch)
    except Prune:
        return ch, None, None, True
    except Violation as e:
        vio = str(e)
    except Exception as e:
        # an error raised out of the code under test is its own; a type or value that a harness cannot use came from there
        if not foreign_error(sys.exc_info()[2]) and not isinstance(e, (TypeError, AttributeError, KeyError, ValueError, IndexError)):
            raise
        vio = 'unexpected %s: %s\n%s' % (type(e).__name__, e, shorten(traceback.format_exc()))
    if len(ch.trace) < len(prefix):
        raise Nondeterminism('the execution ended after %d choices of a prefix of %d' % (len(ch.trace), len(prefix)))
    return ch, out, vio, False


def next_prefix(trace, floor, bound):
    """The next leaf of the tree in depth-first order, not backtracking above position floor."""
    spent = [0]
    for c, n, costs in trace:
        spent.append(spent[-1] + (costs[c] if costs is not None else 0))
    for i in range(len(trace) - 1, floor - 1, -1):
        c, n, costs = trace[i]
        for alt in range(c + 1, n):
            if costs is None or bound is None or spent[i] + costs[alt] <= bound:
                return [(a, m) for a, m, _ in trace[:i]] + [(alt, n)]
    return None


def dfs(run, root, bound, stats, name, deadline, stop, max_violations=1):
    prefix = list(root)
    new_from = len(root)
    cap = int(os.environ.get('MC_CAP', 0))      # only for tools/mutate.py, which looks for cheap detections first
    while prefix is not None:
        if stop():
            return
        if cap:
            cap -= 1
            if not cap:
                stats.capped = True
                return
        if deadline is not None and now() > deadline:
            stats.capped = True
            return
        ch, out, vio, pruned = execute(run, prefix, bound)
        stats.steps += len(ch.trace)
        stats.nodes += max(0, len(ch.trace) - new_from + 1)
        stats.max_depth = max(stats.max_depth, len(ch.trace))
        if pruned:
            stats.pruned += 1
        else:
            stats.executions += 1
            if vio is not None:
                stats.violations.append((name, vio, [(c, n) for c, n, _ in ch.trace]))
                if len(stats.violations) >= max_violations:
                    return
            else:
                if out in stats.outcomes or len(stats.outcomes) < 200000:
                    stats.outcomes[out] = stats.outcomes.get(out, 0) + 1
                if stats.last is None or len(ch.trace) > len(stats.last):
                    stats.last = [(c, n) for c, n, _ in ch.trace]
        prefix = next_prefix(ch.trace, len(root), bound)
        new_from = len(prefix) if prefix is not None else 0


def split(run, bound, want, stats, name):
    """Disjoint subtrees (as prefixes) that together cover the whole tree; at least `want` of them if there are.
    Harnesses may check the oracle only beyond the replayed prefix, so violations count here as well."""
    nodes, leaves = [[]], []
    while nodes and len(nodes) + len(leaves) < want:
        node = nodes.pop(0)
        ch, _, vio, _ = execute(run, node, bound)
        if vio is not None:
            stats.violations.append((name, vio, [(c, n) for c, n, _ in ch.trace]))
            return []
        if len(ch.trace) <= len(node):
            leaves.append(node)
            continue
        c, n, costs = ch.trace[len(node)]
        spent = sum(cs[a] for a, _, cs in ch.trace[:len(node)] if cs is not None)
        for alt in range(n):
            if costs is None or bound is None or spent + costs[alt] <= bound:
                nodes.append(node + [(alt, n)])
    return nodes + leaves


class Harness(object):
    """name: shown in evidence and replay files.  run: see the module's text.  bound: cost bound or None.
    jobs: how many subtrees to split into (1: not worth splitting).
    about: what is enumerated, for the evidence.  finding: key of the known finding this harness demonstrates."""

    def __init__(self, name, run, bound=None, jobs=None, about='', finding=None):
        self.name = name
        self.run = run
        self.bound = bound
        self.jobs = jobs
        self.about = about
        self.finding = finding


def explore_all(harnesses, workers, budget_s, max_violations=1):
    """Explore every harness completely, on `workers` forked processes.  Returns {harness name: Stats}."""
    deadline = now() + budget_s if budget_s else None
    items = []
    result = {h.name: Stats() for h in harnesses}
    per = max(1, min(256, (workers * 24) // max(1, len(harnesses))))
    for h in harnesses:
        for root in split(h.run, h.bound, h.jobs or per, result[h.name], h.name) if (h.jobs or per) > 1 else [[]]:
            items.append((h, root))
        if result[h.name].violations:
            return result, []
    # interleave so that the workers do not all sit in the last harness
    items = [items[i] for i in sorted(range(len(items)), key=lambda i: (i * 7919) % len(items))]
    flag = mmap.mmap(-1, 8)
    counter = os.pipe()
    for i in range(len(items)):
        os.write(counter[1], struct.pack('<I', i)) if i < 12000 else None
    if len(items) > 12000:
        raise RuntimeError('too many work items')
    os.close(counter[1])
    sys.stdout.flush()
    sys.stderr.flush()
    children = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                local = {}
                try:
                    while flag[0] == 0:
                        b = os.read(counter[0], 4)
                        if len(b) < 4:
                            break
                        h, root = items[struct.unpack('<I', b)[0]]
                        st = local.setdefault(h.name, Stats())
                        dfs(h.run, root, h.bound, st, h.name, deadline, lambda: flag[0] != 0, max_violations)
                        if st.violations:
                            flag[0] = 1
                    payload = ('ok', local)
                except Nondeterminism as e:
                    flag[0] = 1
                    payload = ('error', 'nondeterminism in %s: %s' % (h.name, e))
                except BaseException:
                    flag[0] = 1
                    payload = ('error', 'harness %s: %s' % (h.name, traceback.format_exc()))
                with os.fdopen(wr, 'wb') as f:
                    f.write(pickle.dumps(payload, 4))
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        children.append((pid, r))
    errors = []
    for pid, r in children:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            errors.append('a worker died without reporting')
            continue
        kind, payload = pickle.loads(data)
        if kind == 'error':
            errors.append(payload)
        else:
            for k, st in payload.items():
                result[k].merge(st)
    os.close(counter[0])
    return result, errors
