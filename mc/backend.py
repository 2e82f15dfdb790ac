"""Cache backends owned by the checks."""
import marshal
import os
import pickle
from django.core.cache.backends.base import BaseCache, DEFAULT_TIMEOUT
from mc import rt


class MemCache(BaseCache):
    """A shared cache server: stateless front end of rt.world.stores[location]."""

    def __init__(self, location, params):
        BaseCache.__init__(self, params)
        self.location = location
        self.owner = rt.get_ident()

    @property
    def data(self):
        if rt.get_ident() != self.owner:
            rt.world.foreign = True
        return rt.world.stores.setdefault(self.location, {})

    def _live(self, k):
        item = self.data.get(k)
        if item is None:
            return None
        if item[1] is not None and item[1] <= rt.clock.now:
            return None
        return item

    def _expiry(self, timeout):
        if timeout is DEFAULT_TIMEOUT:
            timeout = self.default_timeout
        if timeout is None:
            return None
        return rt.clock.now + timeout

    def get(self, key, default=None, version=None):
        k = self.make_key(key, version)
        rt.world.before('get', k)
        item = self._live(k)
        v = default if item is None else pickle.loads(item[0])
        rt.world.done('get', k)
        return v

    def set(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        k = self.make_key(key, version)
        b = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
        rt.world.before('set', k)
        self.data[k] = (b, self._expiry(timeout))
        rt.world.done('set', k)

    def add(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        k = self.make_key(key, version)
        b = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
        rt.world.before('add', k)
        if self._live(k) is not None:
            return False
        self.data[k] = (b, self._expiry(timeout))
        rt.world.done('add', k)
        return True

    def delete(self, key, version=None):
        k = self.make_key(key, version)
        rt.world.before('delete', k)
        self.data.pop(k, None)
        rt.world.done('delete', k)

    def get_many(self, keys, version=None):
        if rt.world.split:
            out = {}
            for key in keys:
                v = self.get(key, None, version)
                if v is not None:
                    out[key] = v
            return out
        ks = [(key, self.make_key(key, version)) for key in keys]
        rt.world.before('get_many', tuple(k for _, k in ks))
        out = {}
        for key, k in ks:
            item = self._live(k)
            if item is not None:
                out[key] = pickle.loads(item[0])
        rt.world.done('get_many', None)
        return out

    def set_many(self, data, timeout=DEFAULT_TIMEOUT, version=None):
        if rt.world.split:
            for key, value in data.items():
                self.set(key, value, timeout, version)
            return
        items = [(self.make_key(key, version), pickle.dumps(v, pickle.HIGHEST_PROTOCOL)) for key, v in data.items()]
        rt.world.before('set_many', tuple(k for k, _ in items))
        for k, b in items:
            self.data[k] = (b, self._expiry(timeout))
        rt.world.done('set_many', None)

    def delete_many(self, keys, version=None):
        if rt.world.split:
            for key in keys:
                self.delete(key, version)
            return
        ks = tuple(self.make_key(key, version) for key in keys)
        rt.world.before('delete_many', ks)
        for k in ks:
            self.data.pop(k, None)
        rt.world.done('delete_many', None)

    def clear(self):
        rt.world.before('clear', None)
        self.data.clear()
        rt.world.done('clear', None)


class SharedCache(MemCache):
    """The same for several processes that take turns: the store is a file."""

    def _path(self):
        return os.path.join(os.environ['MC_FILES'], 'store')

    def _turn(name):
        method = getattr(MemCache, name)

        def turn(self, *args, **kwargs):
            try:
                with open(self._path(), 'rb') as f:
                    rt.world.stores[self.location] = marshal.loads(f.read())
            except IOError:
                rt.world.stores[self.location] = {}
            try:
                return method(self, *args, **kwargs)
            finally:
                if not name.startswith('get'):
                    with open(self._path(), 'wb') as f:
                        f.write(marshal.dumps(rt.world.stores[self.location]))
        return turn

    for _name in ('get', 'set', 'add', 'delete', 'get_many', 'set_many', 'delete_many', 'clear'):
        locals()[_name] = _turn(_name)


def adapter(AbstractCache):
    """A cache on the repository's adapter class, out of single-key operations only."""

    class Adapter(AbstractCache):
        default_timeout = 600

        def __init__(self, location, params=None):
            self.location = location
            for k, v in (params or {}).get('OPTIONS', {}).items():
                setattr(self, k, v)

        @property
        def data(self):
            return rt.world.stores.setdefault(self.location, {})

        def _live(self, k):
            item = self.data.get(k)
            if item is not None and (item[1] is None or item[1] > rt.clock.now):
                return item

        def get(self, key, default=None, version=None):
            k = self.make_key(key, version)
            rt.world.before('get', k)
            item = self._live(k)
            v = default if item is None else pickle.loads(item[0])
            rt.world.done('get', k)
            return v

        def set(self, key, value, timeout=None, version=None):
            k = self.make_key(key, version)
            b = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
            rt.world.before('set', k)
            self.data[k] = (b, rt.clock.now + (self.default_timeout if timeout is None else timeout))
            rt.world.done('set', k)

        def add(self, key, value, timeout=None, version=None):
            k = self.make_key(key, version)
            b = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
            rt.world.before('add', k)
            if self._live(k) is not None:
                return False
            self.data[k] = (b, rt.clock.now + (self.default_timeout if timeout is None else timeout))
            rt.world.done('add', k)
            return True

        def delete(self, key, version=None):
            k = self.make_key(key, version)
            rt.world.before('delete', k)
            self.data.pop(k, None)
            rt.world.done('delete', k)

        def clear(self):
            rt.world.before('clear', None)
            self.data.clear()
            rt.world.done('clear', None)

    return Adapter


def __getattr__(name):
    if name == 'Adapter':
        from cache_dependencies.cache import AbstractCache
        globals()['Adapter'] = cls = adapter(AbstractCache)
        return cls
    raise AttributeError(name)
