"""Application-defined dependencies."""
import copy
from mc import rt
from mc.sut import *
from cache_dependencies import defer
from cache_tagging import dependencies as old_deps          # deprecated name of the package


class StampInvalid(exc.DependencyInvalid):
    pass


class Stamp(IDependency):
    """Valid as long as the stamp of this name has not been changed; needs no cache.  rt.world.stamps is what a file's
    modification time would be."""

    def __init__(self, name):
        self.name = name
        self.stamp = None

    def evaluate(self, cache, transaction, version):
        self.stamp = rt.world.stamps.get(self.name, 0)

    def validate(self, cache, version):
        d = defer.Deferred(None, defer.NoneDeferredIterator)

        def callback(node, caches):
            if self.stamp != rt.world.stamps.get(self.name, 0):
                raise StampInvalid(self, [self.name])
        d.add_callback(callback)
        return d

    def invalidate(self, cache, version):
        rt.world.stamps[self.name] = rt.world.stamps.get(self.name, 0) + 1

    def acquire(self, cache, transaction, version):
        pass

    def release(self, cache, transaction, delay, version):
        pass

    def extend(self, other):
        return isinstance(other, Stamp) and other.name == self.name

    def __copy__(self):
        c = self.__class__(self.name)
        c.__dict__.update(self.__dict__)
        return c


class Counter(IDependency):
    """Valid as long as a number in the cache has not been changed; its query is combined with those of tags."""

    def __init__(self, name):
        self.name = name
        self.value = None

    def key(self):
        return 'counter_' + self.name

    def evaluate(self, cache, transaction, version):
        self.value = cache.get(self.key(), 0, version)

    def validate(self, cache, version):
        d = defer.Deferred(cache.get_many, defer.GetManyDeferredIterator, version)

        def callback(node, caches, keys):
            if self.value != caches.get(self.key(), 0):
                raise StampInvalid(self, [self.name])
        d.add_callback(callback, [self.key()])
        return d

    def invalidate(self, cache, version):
        cache.set(self.key(), cache.get(self.key(), 0, version) + 1, 100000, version)

    def acquire(self, cache, transaction, version):
        pass

    def release(self, cache, transaction, delay, version):
        pass

    def extend(self, other):
        return type(other) is type(self) and other.name == self.name

    def __copy__(self):
        c = self.__class__(self.name)
        c.__dict__.update(self.__dict__)
        return c


class Elsewhere(Counter):
    """The number is kept under another cache version: a query that can not be combined."""

    def evaluate(self, cache, transaction, version):
        self.value = cache.get(self.key(), 0, 77)

    def validate(self, cache, version):
        d = defer.Deferred(cache.get_many, defer.GetManyDeferredIterator, 77)

        def callback(node, caches, keys):
            if self.value != caches.get(self.key(), 0):
                raise StampInvalid(self, [self.name])
        d.add_callback(callback, [self.key()])
        return d

    def invalidate(self, cache, version):
        cache.set(self.key(), cache.get(self.key(), 0, 77) + 1, 100000, 77)


# leaves of dependency trees: (name, constructor, what it depends on)
LEAVES = [
    ('T', lambda: deps.TagsDependency('t'), {'t'}),
    ('U', lambda: deps.TagsDependency('u'), {'u'}),
    ('TU', lambda: deps.TagsDependency('t', 'u'), {'t', 'u'}),
    ('S', lambda: Stamp('s'), {'s'}),
    ('C', lambda: Counter('c'), {'c'}),
    ('E', lambda: Elsewhere('e'), {'e'}),
    ('0', lambda: deps.DummyDependency(), set()),
    ('R', lambda: Stamp('r'), {'r'}),
    ('OT', lambda: old_deps.TagsDependency('t'), {'t'}),
    ('OC', lambda: old_deps.CompositeDependency(old_deps.TagsDependency('u'), deps.TagsDependency('t')), {'t', 'u'}),
    ('O0', lambda: old_deps.DummyDependency(), set()),
]
BY_NAME = {n: (f, on) for n, f, on in LEAVES}
INVALIDATORS = {
    't': lambda: deps.TagsDependency('t'), 'u': lambda: deps.TagsDependency('u'), 's': lambda: Stamp('s'),
    'c': lambda: Counter('c'), 'e': lambda: Elsewhere('e'), 'r': lambda: Stamp('r'),
}


def choose_tree(ch, budget, leaves, width=3):
    """A dependency tree of at most `budget` nodes.  Returns (description, what it depends on)."""
    left = [budget]

    def node(top):
        left[0] -= 1
        n = len(leaves)
        c = ch.choose(n + (1 if left[0] > 0 or top else 0))
        if c < n:
            return leaves[c]
        kids = []
        while left[0] > 0 and len(kids) < width and ch.choose(2):
            kids.append(node(False))
        return tuple(kids)
    return node(True)


def build(tree):
    if isinstance(tree, tuple):
        return deps.CompositeDependency(*[build(t) for t in tree])
    return BY_NAME[tree][0]()


def depends_on(tree):
    if isinstance(tree, tuple):
        return set().union(*[depends_on(t) for t in tree]) if tree else set()
    return set(BY_NAME[tree][1])


def text(tree):
    return '(%s)' % ' '.join(map(text, tree)) if isinstance(tree, tuple) else tree
