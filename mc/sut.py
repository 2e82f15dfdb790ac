"""The system under test, imported into the closed world."""
from mc import rt
rt.setup()

import django_cache_dependencies as dcd                                     # noqa
from django_cache_dependencies import CacheCollection                       # noqa
from cache_dependencies import dependencies as deps                         # noqa
from cache_dependencies import exceptions as exc                            # noqa
from cache_dependencies.tagging import CacheTagging                         # noqa
from cache_dependencies.cache import AbstractCache                          # noqa
from cache_dependencies.interfaces import IDependency                       # noqa
from mc.explore import Violation, Prune, Harness                            # noqa

rt.install_locks()


# every small number, and the neighbourhood of numbers that code likes to use as a limit
# Tags that are different, though only just.
LONG = 'x' * 260
NAMES = ['t', 'T', 't ', ' t', 't\n', 't\t', 't\0', 'tt', 't,u', 't:u', 't/u', 't u', 't_u', 't-u', 't.u', 't%s', 't{0}', "t'", 't"', '', ' ', 0, 7, -7, 7.5, '07',
         '7.0', '1e3', '1000', 'None', 'True', 'tag_t', u'\u0442', u't\u0301', u'\u00e9', u'e\u0301', 'e', u'\u4e2d\u6587', u'\u4e2d', u'\U0001f600',
         LONG, LONG + 'x', LONG + 'a', 'a' + LONG, LONG + 'a' + LONG, LONG + 'b' + LONG, 'x' * 32, 'x' * 33, 'x' * 64, 'x' * 65, 'x' * 250, 'x' * 251]
SIZES = sorted(set(list(range(1, 21)) + [k + d for k in (32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024)
                                         for d in (-1, 0, 1)]))


class Expect(object):
    """Reference model of one store: which entries must, may or must not be readable.

    tags of an entry: set of names; None for a native entry.  'maybe': a record it needs was evicted or expired, so
    the entry may be gone, but only an explicit invalidation makes it forbidden.
    """

    def __init__(self):
        self.entries = {}       # key -> [value, tags, status]  status: 'must' | 'maybe' | 'no'

    def store(self, key, value, tags, expires=None):
        self.entries[key] = [value, frozenset(tags), 'must', expires]

    def invalidate(self, tags):
        tags = set(tags)
        for e in self.entries.values():
            if e[1] & tags:
                e[2] = 'no'

    def forget_tag(self, tag):
        for e in self.entries.values():
            if tag in e[1] and e[2] == 'must':
                e[2] = 'maybe'

    def forget_entry(self, key):
        e = self.entries.get(key)
        if e is not None and e[2] == 'must':
            e[2] = 'maybe'

    def delete(self, key):
        self.entries.pop(key, None)

    def at(self, now):
        for k, e in list(self.entries.items()):
            if e[3] is not None and now >= e[3]:
                del self.entries[k]

    def check(self, key, got, missing, stale=True, present=True, how=''):
        """got: what the read returned; missing: the caller's default."""
        e = self.entries.get(key)
        if got is missing:
            if present and e is not None and e[2] == 'must':
                raise Violation('%s of %r found nothing, but %r with tags %s was stored and nothing invalidated it' % (
                    how, key, e[0], sorted(e[1], key=str)))
            return
        if e is None:
            if stale:
                raise Violation('%s of %r returned %r, but there is no such entry' % (how, key, got))
        elif e[2] == 'no':
            if stale:
                raise Violation('%s of %r returned %r, although its tags %s were invalidated after it was stored' % (
                    how, key, got, sorted(e[1], key=str)))
        elif got != e[0] or type(got) is not type(e[0]):
            raise Violation('%s of %r returned %r instead of %r' % (how, key, got, e[0]))


class Missing(object):
    def __reduce__(self):
        return 'MISSING'

    def __repr__(self):
        return 'MISSING'


MISSING = Missing()
