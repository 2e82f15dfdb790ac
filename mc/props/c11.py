"""Dependency objects and tag collections shared between many uses, and changed by the caller afterwards."""
from mc.custom import *

ASSUMPTIONS = ['an application-defined dependency implements the documented interface, copying included']


def picture(d):
    """What a dependency object consists of."""
    if isinstance(d, (deps.CompositeDependency, old_deps.CompositeDependency)):
        return ('composite', tuple((id(x), picture(x)) for x in d.delegates))
    if isinstance(d, (deps.TagsDependency, old_deps.TagsDependency)):
        return ('tags', frozenset(d.tags), tuple(sorted(d.tag_versions.items())))
    if isinstance(d, (Stamp, Counter)):
        return (type(d).__name__, tuple(sorted(d.__dict__.items())))
    return (type(d).__name__,)


class Sys(object):
    def __init__(self, ch, alias):
        rt.fresh()
        self.ch = ch
        self.c = CacheCollection()[alias]
        self.entries = {}               # key -> [value, depends on, valid]
        self.n = 0
        self.objects = {}               # name -> [object, picture, depends on]
        self.in_tx = 0
        self.pending = set()

    def obj(self, name, o, on):
        self.objects[name] = [o, picture(o), set(on)]

    def use(self, name):
        return self.objects[name][0]

    def on(self, name):
        return set(self.objects[name][2])

    def stored(self, key, value, on):
        self.entries[key] = [value, set(on), True]

    def gone(self, on):
        for e in self.entries.values():
            if e[1] & on:
                e[2] = False
        if self.in_tx:
            self.pending |= on

    def begin(self):
        self.ch.note('begin')
        self.c.transaction.begin()
        self.in_tx += 1

    def end(self):
        self.ch.note('finish')
        self.c.transaction.finish()
        self.in_tx -= 1
        if not self.in_tx:
            on, self.pending = self.pending, set()
            self.gone({x for x in on})

    def value(self):
        self.n += 1
        return 'v%d' % self.n

    def set(self, key, name, how=0):
        v = self.value()
        d = self.use(name)
        if how == 0:
            self.c.set(key, v, d, 1000)
        elif how == 1:
            self.c.cache.set(key, v, d, 1000)
        elif how == 2:
            self.c.invalidate_tags('x')
            self.c.get_or_set_callback(key + 'n%d' % self.n, lambda: v, d, 1000)
            key = key + 'n%d' % self.n
        else:
            self.c.cache.get_or_set_callback(key + 'n%d' % self.n, lambda: v, d, 1000)
            key = key + 'n%d' % self.n
        self.stored(key, v, self.on(name))
        self.ch.note('set %s %s (%d)' % (key, name, how))

    def nested(self, outer, oname, inner, iname):
        v, w = self.value(), self.value()
        self.c.delete(outer)
        self.c.delete(inner)
        self.c.get(outer)
        self.c.get(inner)
        self.c.set(inner, w, self.use(iname), 1000)
        self.c.set(outer, v, self.use(oname), 1000)
        self.stored(inner, w, self.on(iname))
        self.stored(outer, v, self.on(oname) | self.on(iname))
        self.ch.note('%s{%s} contains %s{%s}' % (outer, oname, inner, iname))

    def around(self, outer, oname, parts, how):
        """An entry made of others, which may be there already: read one by one, at once, or made on the way."""
        v = self.value()
        on = self.on(oname)
        self.c.delete(outer)
        if how == 'many':
            def make():
                got = self.c.get_many([k for k, n in parts])
                for k, n in parts:
                    if k not in got:
                        w = self.value()
                        self.c.set(k, w, self.use(n), 1000)
                        self.stored(k, w, self.on(n))
                return v
        else:
            def make():
                for k, n in parts:
                    w = self.value()
                    if self.c.get_or_set_callback(k, lambda: w, self.use(n), 1000) == w:
                        self.stored(k, w, self.on(n))
                return v
        self.c.get_or_set_callback(outer, make, self.use(oname), 1000)
        for k, n in parts:
            on |= self.entries[k][1]
        self.stored(outer, v, on)
        self.ch.note('%s{%s} made of %s (%s): depends on %s' % (outer, oname, parts, how, sorted(on)))

    def invalidate(self, name, how=0):
        d = self.use(name)
        if how == 0 and isinstance(d, IDependency):
            self.c.invalidate_tags(d)
        elif how == 0:
            self.c.invalidate_tags(d)
        else:
            self.c.invalidate_dependency(d)
        self.gone(self.on(name))
        self.ch.note('invalidate %s (%d)' % (name, how))

    def tag(self, t):
        self.c.invalidate_tags(t)
        self.gone({t})
        self.ch.note('invalidate tag %s' % t)

    def unchanged(self):
        for name, (o, p, on) in self.objects.items():
            if picture(o) != p:
                raise Violation('%s was changed from %r to %r' % (name, p, picture(o)))

    def check(self):
        self.unchanged()
        for k in sorted(self.entries):
            v, on, valid = self.entries[k]
            got = self.c.get(k, None, abort=True)
            if valid and got != v:
                raise Violation('%s depends on %s and reads %r, although nothing of it was invalidated' % (k, sorted(on), got))
            if not valid and got is not None:
                raise Violation('%s depends on %s and is readable after an invalidation' % (k, sorted(on)))
        many = self.c.get_many(sorted(self.entries), abort=True)
        want = {k: e[0] for k, e in self.entries.items() if e[2]}
        if many != want:
            raise Violation('get_many gave %r instead of %r' % (many, want))
        self.unchanged()


def shared(alias, budget, leaves, depth, others):
    def run(ch):
        s = Sys(ch, alias)
        tree = choose_tree(ch, budget, leaves)
        s.obj('d', build(tree), depends_on(tree))
        other = ch.pick(others)
        s.obj('e', build(other), depends_on(other))
        s.obj('de', deps.CompositeDependency(s.use('d'), s.use('e')), s.on('d') | s.on('e'))
        ch.note('d is %s, e is %s' % (text(tree), text(other)))
        ops = [
            lambda: s.set('k1', 'd'), lambda: s.set('k2', 'd', 1), lambda: s.set('k1', 'e'), lambda: s.set('k3', 'de'),
            lambda: s.nested('k4', 'e', 'k1', 'd'), lambda: s.nested('k5', 'd', 'k2', 'de'),
            lambda: s.invalidate('d'), lambda: s.invalidate('e', 1), lambda: s.invalidate('de'),
            lambda: s.tag('t'), lambda: s.set('k6', 'd', 2), lambda: s.set('k7', 'de', 3),
        ]
        for i in range(depth):
            ops[ch.choose(len(ops))]()
            s.check() if ch.fresh() else s.unchanged()
        for w in 'tus':
            s.set('k8', 'de')
            s.c.invalidate_dependency(INVALIDATORS[w]())
            s.gone({w})
            s.check()
        return repr(sorted((k, e[2]) for k, e in s.entries.items()))
    return run


def fragments(alias, budget, leaves, depth):
    """The caller's objects for entries made of others, which are found in the cache with dependencies of their own."""
    def run(ch):
        s = Sys(ch, alias)
        tree = choose_tree(ch, budget, leaves)
        s.obj('d', build(tree), depends_on(tree))
        s.obj('e', build('U'), {'u'})
        s.obj('x', deps.TagsDependency('x'), {'x'})
        s.obj('de', deps.CompositeDependency(s.use('d'), s.use('e')), s.on('d') | s.on('e'))
        ch.note('d is %s' % text(tree))
        both = [('k1', 'x'), ('k2', 'e')]
        ops = [lambda: s.around('p1', 'd', both, 'each'), lambda: s.around('p1', 'd', both, 'many'),
               lambda: s.around('p2', 'e', [('k1', 'd'), ('p1', 'x')], 'each'), lambda: s.around('p3', 'de', [('p1', 'e'), ('k3', 'x')], 'many'),
               lambda: s.set('k1', 'd'), lambda: s.tag('x'), lambda: s.tag('t'), lambda: s.invalidate('d'), lambda: s.invalidate('de')]
        for i in range(depth):
            ops[ch.choose(len(ops))]()
            s.check() if ch.fresh() else s.unchanged()
        for w in 'tux':
            s.tag(w)
            s.check()
        return repr(sorted((k, e[2]) for k, e in s.entries.items()))
    return run


def in_transaction(alias, budget, leaves):
    """One object for several invalidations and stores in nested transactions."""
    def run(ch):
        s = Sys(ch, alias)
        tree = choose_tree(ch, budget, leaves)
        s.obj('d', build(tree), depends_on(tree))
        s.obj('e', build('U'), {'u'})
        s.obj('de', deps.CompositeDependency(s.use('e'), s.use('d')), s.on('d') | s.on('e'))
        ch.note('d is %s' % text(tree))
        s.set('k1', 'd')
        s.set('k2', 'e')
        s.begin()
        ops = [lambda: s.invalidate('d'), lambda: s.invalidate('e'), lambda: s.invalidate('de', 1), lambda: s.set('k1', 'd'),
               lambda: s.set('k3', 'de'), s.begin, s.end]
        for i in range(4):
            ops[ch.choose(len(ops) if s.in_tx else len(ops) - 1)]()
            if ch.fresh():
                s.check()
        while s.in_tx:
            s.end()
            s.check()
        s.set('k1', 'd')
        s.set('k2', 'e')
        s.check()
        s.tag('u')
        s.check()
        return repr(sorted((k, e[2]) for k, e in s.entries.items()))
    return run


def caller_changes(alias):
    """The caller changes the collection or object after the call: nobody else notices."""
    kinds = ['list', 'set', 'tags', 'composite', 'tags of list', 'tags of set']

    def run(ch):
        s = Sys(ch, alias)
        kind = ch.pick(kinds)
        holder = {'list': ['t'], 'set': {'t'}, 'tags of list': ['t'], 'tags of set': {'t'}}.get(kind)
        if kind in ('list', 'set'):
            obj = holder
        elif kind.startswith('tags of'):
            obj = deps.TagsDependency(holder)
        elif kind == 'tags':
            obj = deps.TagsDependency('t')
            holder = obj.tags
        else:
            part = deps.TagsDependency('t')
            obj = deps.CompositeDependency(part)
            holder = part.tags
        change = ch.choose(3)           # add a tag, remove the tag, nothing

        def mutate():
            if change == 0:
                holder.append('z') if isinstance(holder, list) else holder.add('z')
            elif change == 1:
                holder.remove('t')
            ch.note('caller: %r' % (holder,))

        def same(before):
            after = list(obj) if isinstance(obj, (list, set)) else picture(obj)
            if after != before:
                raise Violation('%s passed by the caller was changed from %r to %r' % (kind, before, after))
        before = list(obj) if isinstance(obj, (list, set)) else picture(obj)
        early = kind.startswith('tags of') and ch.choose(2)
        if early:
            mutate()
            same(before)
        where = ch.choose(4)
        c = s.c
        if where == 0:              # stored
            c.set('k', 1, obj, 1000)
            same(before)
            early or mutate()
            probe = {'k': {'t'}}
        elif where == 1:            # fragment of an entry under construction
            c.get('p')
            c.get('k')
            c.set('k', 1, obj, 1000)
            same(before)
            early or mutate()
            c.set('p', 2, ('own',), 1000)
            probe = {'k': {'t'}, 'p': {'t', 'own'}}
        elif where == 2:            # invalidated within a transaction
            x = rt.sessions(1)[0]
            c.transaction.begin()
            if ch.choose(2):
                c.transaction.begin()
            c.invalidate_tags(obj)
            same(before)
            early or mutate()

            def other():
                o = CacheCollection()[alias.replace('rr', 'rc')]
                o.set('kt', 1, ('t',), 1000)
                o.set('kz', 1, ('z',), 1000)
            x.call(other)
            c.transaction.flush()
            if c.get('kt', None, abort=True) is not None:
                raise Violation('the end of the transaction did not invalidate what had been invalidated in it')
            if c.get('kz', None, abort=True) is None:
                raise Violation('the end of the transaction invalidated a tag that the caller added afterwards')
            probe = {}
        else:                       # several entries with one object, changed in between
            c.set('k', 1, obj, 1000)
            same(before)
            early or mutate()
            c.set('j', 2, obj, 1000)
            probe = {'k': {'t'}, 'j': {'t'} if kind.startswith('tags of') else {0: {'t', 'z'}, 1: set(), 2: {'t'}}[change]}
        alive = dict(probe)
        for t in ('z', 't', 'own'):
            for k in probe:
                got = c.get(k, None, abort=True) is not None
                if got != (k in alive):
                    raise Violation('%s is %s before invalidation of %s, it was stored with %s' % (
                        k, 'readable' if got else 'not readable', t, sorted(probe[k])))
            c.invalidate_tags(t)
            alive = {k: v for k, v in alive.items() if t not in v}
        for k in probe:
            if (c.get(k, None, abort=True) is not None) != (k in alive):
                raise Violation('%s stored with %s has the wrong state at the end' % (k, sorted(probe[k])))
        return kind, change, where
    return run


def collections(alias):
    """Every collection type, through each call, stays as it is and means the same."""
    def run(ch):
        s = Sys(ch, alias)
        c = s.c
        elements = ch.pick([[], ['t'], ['t', 'u'], ['t', 't'], ['u', 'x', 't']])
        make = ch.pick([list, tuple, set, frozenset, lambda x: deps.TagsDependency(*x), lambda x: deps.TagsDependency(list(x))])
        obj = make(elements)
        how = ch.choose(3)
        before = picture(obj) if isinstance(obj, IDependency) else (type(obj), list(obj))

        def same():
            after = picture(obj) if isinstance(obj, IDependency) else (type(obj), list(obj))
            if after != before:
                raise Violation('the tags %r of the caller were changed to %r' % (before, after))
        if how == 0:
            c.set('k', 1, obj, 1000)
        elif how == 1:
            c.get_or_set_callback('k', lambda: 1, obj, 1000)
        else:
            c.get('p')
            c.set('k', 1, obj, 1000)
            c.set('p', 2, ['w'], 1000)
        same()
        if c.get('k', None, abort=True) != 1:
            raise Violation('the entry is not readable')
        c.invalidate_tags('other')
        if c.get('k', None, abort=True) != 1:
            raise Violation('an unrelated invalidation removed the entry')
        if ch.choose(2):
            c.invalidate_tags(obj)
            same()
            hit = set(elements)
        else:
            c.invalidate_tags('u')
            hit = {'u'}
        for k, on in (('k', set(elements)), ('p', set(elements) | {'w'})):
            if k == 'p' and how != 2:
                continue
            if (c.get(k, None, abort=True) is None) != bool(on & hit):
                raise Violation('%s with tags %s and invalidated %s: %r' % (k, sorted(on), sorted(hit), c.get(k, None, abort=True)))
        same()
        return len(elements), how
    return run


def harnesses(tier):
    deep = tier == 'thorough'
    return [
        Harness('shared objects', shared('rc0', 3, ['T', 'TU', 'S', '0'], 3 if deep else 2, ['U', ('T', 'S')]),
                about='all trees of up to 3 nodes, all sequences of uses'),
        Harness('shared leaves', shared('rc0', 1, ['T', 'TU', 'S', 'C', '0'], 4 if deep else 3, ['U', 'T']), about='longer sequences, simple objects'),
        Harness('deprecated names', shared('rc0', 2, ['OT', 'OC', 'O0', 'T'], 2, ['OC', 'U', ('OT', 'S')]),
                about='dependencies made by the deprecated package'),
        Harness('deprecated names, transactions', in_transaction('rr0', 2, ['OT', 'OC']), about='...'),
        Harness('fragments, rc0', fragments('rc0', 2, ['T', 'TU', 'S', '0'], 4 if deep else 3), about='objects of entries made of others, all sequences'),
        Harness('fragments, rr0', fragments('rr0', 1, ['T', 'TU', 'S', '0'], 3), about='objects of entries made of others, all sequences'),
        Harness('larger trees', shared('rr0', 5 if deep else 4, ['T', 'U', 'S'], 1, ['TU']), about='trees of up to 4 nodes'),
        Harness('transactions, rc0', in_transaction('rc0', 3 if deep else 2, ['T', 'TU', 'S', '0']), about='uses in nested transactions'),
        Harness('transactions, rr0', in_transaction('rr0', 3 if deep else 2, ['T', 'TU', 'S', '0']), about='uses in nested transactions'),
        Harness('caller changes, rc0', caller_changes('rc0'), about='every kind of later change'),
        Harness('caller changes, rr0', caller_changes('rr0'), about='every kind of later change'),
        Harness('collections', collections('rc0'), about='every collection type'),
    ]
