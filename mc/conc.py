"""Concurrent scenarios: recording of calls and the oracle over the recorded intervals."""
from mc.sut import *


class Recorder(object):
    def __init__(self, ch):
        self.ch = ch
        self.clock = 0
        self.calls = []         # dicts

    def tick(self):
        self.clock += 1
        return self.clock

    def call(self, who, kind, fn, **info):
        rt.point('call')
        rec = dict(info, who=who, kind=kind, start=self.tick(), end=None)
        self.calls.append(rec)
        self.ch.note('%s: %s %s begins' % (who, kind, show(info)))
        rec['result'] = fn()
        rec['end'] = self.tick()
        self.ch.note('%s: %s %s -> %r' % (who, kind, show(info), rec['result']))
        return rec['result']

    def check(self):
        """Every value read was stored, was not completely superseded, and was not invalidated before the read."""
        sets = [c for c in self.calls if c['kind'] == 'set']
        removals = [c for c in self.calls if c['kind'] == 'delete']
        invs = [c for c in self.calls if c['kind'] == 'invalidate']
        for r in self.calls:
            if r['kind'] != 'get' or r['result'] is None:
                continue
            src = [s for s in sets if s['key'] == r['key'] and s['value'] == r['result'] and s['start'] < r['end']]
            if not src:
                raise Violation('%s read %r of %r, which nobody had stored' % (r['who'], r['result'], r['key']))
            s = src[0]
            for other in sets + removals:
                if other is not s and other['key'] == r['key'] and s['end'] is not None and other['end'] is not None \
                        and other['start'] > s['end'] and other['end'] < r['start']:
                    raise Violation('%s read %r of %r after %s had replaced it' % (
                        r['who'], r['result'], r['key'], show(other)))
            for i in invs:
                if set(i['tags']) & set(s['tags']) and s['end'] is not None and i['end'] is not None \
                        and i['start'] > s['end'] and i['end'] < r['start']:
                    raise Violation('%s read %r of %r although tags %s were invalidated after it was stored with tags %s '
                                    'and before the read' % (r['who'], r['result'], r['key'], i['tags'], s['tags']))


def show(info):
    return ' '.join('%s=%r' % (k, v) for k, v in sorted(info.items())
                    if k not in ('start', 'end', 'result', 'who', 'kind'))


def run_threads(ch, bodies, names=None, max_points=4000, by_statement=False, free=(), sessions=None):
    """Runs the bodies on sessions under the scheduler with a scheduling point at each backend operation."""
    s = rt.Sched(ch, max_points)
    s.free = set(free)
    s.by_statement = by_statement
    ss = sessions or rt.sessions(len(bodies))
    for i, b in enumerate(bodies):
        s.spawn(b, names[i] if names else 'T%d' % (i + 1), ss[i])

    if not by_statement:
        def hook(op, key):
            me = s.me()
            if ch.log is not None and me is not None:
                rt.point('op')
                ch.note('%s:   backend %s %s' % (s.me().name, op, short(key)))
            else:
                rt.point('op')
        rt.world.hook = hook
    try:
        s.run()
    finally:
        rt.world.hook = None
    return s


def short(key):
    if isinstance(key, tuple):
        return '(' + ', '.join(short(k) for k in key) + ')'
    if key is None:
        return ''
    parts = str(key).split(':')
    k = parts[-1]
    return (k[:12] + '..' + k[-6:]) if len(k) > 20 else k
