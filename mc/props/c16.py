"""Model signals: registrations in every form, histories of saves and deletes of real models."""
import functools
import os
import sys
import types
from mc.sut import *
from django.core import serializers
from django.db import IntegrityError, connection, connections, transaction
from django.db.models import signals as model_signals
from mc.mc16.models import Category, Post, Other, Special, ProxyPost
from django_cache_dependencies import CacheRegistry, autodiscover, registry

ASSUMPTIONS = [
    'a cache object (not an alias) is registered and used in one thread',
    'the tags function itself does not raise TypeError',
]


tables = []


def database():
    if not tables:          # in memory: a forked process goes on with its own copy
        for db in connections:
            with connections[db].schema_editor() as e:
                for m in (Category, Post, Other, Special):
                    e.create_model(m)
        tables.append(1)
    for db in connections:
        with connections[db].cursor() as c:
            for t in ('mc16_special', 'mc16_post', 'mc16_category', 'mc16_other'):
                c.execute('DELETE FROM %s' % t)


def no_receivers():
    for s in (model_signals.post_save, model_signals.pre_delete, model_signals.pre_save, model_signals.post_delete, model_signals.m2m_changed):
        del s.receivers[:]
        s.sender_receivers_cache.clear()


# ------------------------------------------------------------------------------------------------ tag functions

def tags_of(obj):
    """What a handler with the plain results yields: names by model and by state."""
    if isinstance(obj, Post):
        return ('post', 'post.pk:%s' % obj.pk, 'cat:%s' % obj.category_id)
    if isinstance(obj, Category):
        return ('category', 'category:%s' % obj.pk)
    return ('other',)


class Callable(object):
    def __call__(self, obj):
        return tags_of(obj)

    def method(self, sender, instance, **kw):
        return tags_of(instance)


def keywords(*a, **kw):
    return tags_of(kw['instance'])


def named(sender, instance, **kw):
    return list(tags_of(instance))


def with_default(obj, prefix='p'):
    return tags_of(obj) + (prefix,)


# name -> (function, what it means)
FORMS = [
    ('keywords', keywords, tags_of),
    ('object', lambda obj: tags_of(obj), tags_of),
    ('named', named, tags_of),
    ('instance only', lambda instance: set(tags_of(instance)), tags_of),
    ('single', lambda obj: tags_of(obj)[-1], lambda o: tags_of(o)[-1:]),
    ('single, keywords', lambda **kw: 'single:%s' % kw['instance'].pk, lambda o: ('single:%s' % o.pk,)),
    ('frozenset', lambda obj: frozenset(tags_of(obj)[:1]), lambda o: tags_of(o)[:1]),
    ('callable', Callable(), tags_of),
    ('method', Callable().method, tags_of),
    ('partial', functools.partial(with_default, prefix='q'), lambda o: tags_of(o) + ('q',)),
    ('default argument', with_default, lambda o: tags_of(o) + ('p',)),
    ('nothing', lambda obj: (), lambda o: ()),
    ('dependency', lambda obj: deps.TagsDependency(*tags_of(obj)), tags_of),
    ('unicode', lambda obj: ['\u00e9:%s' % obj.pk], lambda o: ('\u00e9:%s' % o.pk,)),
    ('created or not', lambda sender, instance, **kw: 'created' if kw.get('created') else 'changed', None),
]
ALIASES = ['absent', 'default', 'rc_b', 'rr_p', 'object', 'proxy', 'none']


def candidates():
    out = ['post', 'category', 'other', 'p', 'q', 'created', 'changed', 'cat:None', 'unrelated']
    for i in range(1, 5):
        out += ['post.pk:%d' % i, 'cat:%d' % i, 'category:%d' % i, 'single:%d' % i, '\u00e9:%d' % i]
    return out


class Sys(object):
    CHECKED = {'default': 'default', 'rc_b': 'rc_b', 'rr_p': 'rr_p'}

    def __init__(self, ch, more=()):
        rt.fresh()
        database()
        no_receivers()
        for c in dcd.caches.all():
            c.close()
        self.ch = ch
        self.registry = CacheRegistry()
        self.handlers = []              # (model, meaning, alias)
        self.tags = candidates() + list(more)
        self.posts, self.cats, self.others = [], [], []
        self.pk = 0
        self.fill()

    filled = {}

    def fill(self):
        me = os.getpid(), len(self.tags)
        if me not in self.filled:      # tag versions mention the process
            for a in self.CHECKED:
                c = dcd.caches[a]
                for t in self.tags:
                    c.set('e_' + t, 1, (t,), 100000)
            self.filled[me] = {k: dict(v) for k, v in rt.world.stores.items()}
        for k, v in self.filled[me].items():
            rt.world.stores[k] = dict(v)

    def refill(self, c, tags):
        for t in tags:
            c.set('e_' + t, 1, (t,), 100000)

    def handler(self, model, form, alias):
        name, f, meaning = form
        third = {'absent': (), 'default': ('default',), 'rc_b': ('rc_b',), 'rr_p': ('rr_p',), 'none': (None,),
                 'object': (dcd.caches['rc_b'],), 'proxy': (dcd.cache,)}[alias]
        real = {'absent': 'default', 'none': 'default', 'object': 'rc_b', 'proxy': 'default'}.get(alias, alias)
        self.handlers.append((model, name, meaning, real))
        self.ch.note('register %s, %s, %s' % (model.__name__, name, alias))
        return (model, f) + third

    def expect(self, events):
        """events: [(instance, tags function argument 'created')]"""
        hit = {a: set() for a in self.CHECKED}
        for obj, created in events:
            for model, name, meaning, alias in self.handlers:
                if type(obj) is model:
                    hit[alias] |= set(meaning(obj)) if meaning else {'created' if created else 'changed'}
        return hit

    def verify(self, what, hit):
        for a in self.CHECKED:
            c = dcd.caches[a]
            if not self.ch.fresh():
                self.refill(c, hit[a] & set(self.tags))
                continue
            got = {'e_' + t for t in self.tags if c.get('e_' + t, None, abort=True) is not None}
            gone = {t for t in self.tags if 'e_' + t not in got}
            if gone != hit[a] & set(self.tags):
                raise Violation('%s: in cache %s the tags %s were invalidated; the handlers yield %s' % (
                    what, a, sorted(gone), sorted(hit[a])))
            self.refill(c, gone)
        self.ch.note('%s: %s' % (what, {a: sorted(h) for a, h in hit.items()}))
        return {a: len(h) for a, h in hit.items()}

    # -- operations

    def op(self, k):
        if k == 0:
            self.pk += 1
            p = Post(pk=self.pk, title='t', category=self.cats[-1] if self.cats else None)
            p.save(force_insert=True)
            self.posts.append(p)
            return self.verify('insert Post %s' % p.pk, self.expect([(p, True)]))
        if k == 1:
            self.pk += 1
            c = Category(pk=self.pk, name='n')
            c.save()
            self.cats.append(c)
            return self.verify('insert Category %s' % c.pk, self.expect([(c, True)]))
        if k == 2:
            p = self.posts[-1]
            p.category = self.cats[-1] if self.cats and p.category_id != self.cats[-1].pk else None
            p.save()
            return self.verify('update Post %s' % p.pk, self.expect([(p, False)]))
        if k == 3:
            p = self.posts.pop()
            again = Post.objects.get(pk=p.pk)
            p.delete()
            return self.verify('delete Post %s' % again.pk, self.expect([(again, False)]))
        if k == 4:
            posts = list(Post.objects.all())
            Post.objects.all().delete()
            self.posts = []
            return self.verify('delete all posts', self.expect([(p, False) for p in posts]))
        if k == 5:
            c = self.cats.pop()
            pk = c.pk
            posts = list(Post.objects.filter(category=c))
            c.delete()
            c.pk = pk
            self.posts = [p for p in self.posts if p.pk not in [x.pk for x in posts]]
            return self.verify('delete Category %s with %d posts' % (pk, len(posts)), self.expect([(c, False)] + [(p, False) for p in posts]))
        if k == 6:
            o = Other(pk=self.pk + 1, title='x')
            o.save()
            return self.verify('save Other', self.expect([(o, True)]))
        if k == 7:
            c = self.cats[-1]
            c.save(update_fields=['name'])
            return self.verify('update Category %s' % c.pk, self.expect([(c, False)]))
        if k == 8:
            p = Post.objects.create(pk=self.pk + 1, title='c')
            self.pk += 1
            self.posts.append(p)
            return self.verify('create Post %s' % p.pk, self.expect([(p, True)]))
        if k == 9:
            p = self.posts[-1]
            model_signals.pre_save.send(sender=Post, instance=p)
            model_signals.post_delete.send(sender=Post, instance=p)
            model_signals.post_save.send(sender=Other, instance=p)
            return self.verify('signals nobody registered for', self.expect([]))

    def possible(self):
        out = [0, 1, 6, 8]
        if self.posts:
            out += [2, 3, 4, 9]
        if self.cats:
            out += [5, 7]
        return sorted(out)


def twice(a, b):
    return lambda s: a(s) + b(s)


def made(s, model=Post, **kw):
    s.pk += 1
    o = model(pk=s.pk, **kw)
    return o


def w_plain(s):
    p = made(s, title='t')
    p.save()
    return [(p, True)]


def w_update(*fields, **kw):
    def way(s):
        p = Post.objects.order_by('pk').first()
        p.category_id = s.cat.pk
        p.title = 'u'
        p.save(update_fields=fields or None, **kw)
        return [(p, False)]
    return way


def w_no_fields(s):
    p = Post.objects.order_by('pk').first()
    p.save(update_fields=[])
    return []


def w_same(s):
    p = Post.objects.order_by('pk').first()
    p.save()
    return [(p, False)]


def w_deferred(s):
    p = Post.objects.order_by('pk').defer('title').first()
    p.save()
    return [(p, False)]


def w_only(s):
    p = Post.objects.order_by('pk').only('title').first()
    p.title = 'x'
    p.save()
    return [(p, False)]


def w_raw(s):
    p = made(s, title='t')
    p.save_base(raw=True)
    return [(p, True)]


def w_deserialized(s):
    out = []
    data = serializers.serialize('python', [made(s, title='a'), made(s, title='b', category=s.cat)])
    for o in serializers.deserialize('python', data):
        o.save()
        out.append((o.object, True))
    return out


def w_get_or_create(s):
    s.pk += 1
    p, _ = Post.objects.get_or_create(pk=s.pk, defaults={'title': 'g'})
    Post.objects.get_or_create(pk=s.pk)
    return [(p, True)]


def w_update_or_create(s):
    s.pk += 1
    p, _ = Post.objects.update_or_create(pk=s.pk, defaults={'title': 'g'})
    q, _ = Post.objects.update_or_create(pk=s.pk, defaults={'title': 'h'})
    return [(p, True), (q, False)]


def w_related(s):
    s.pk += 1
    return [(s.cat.post_set.create(pk=s.pk, title='r'), True)]


def w_moved(s):
    p = Post.objects.order_by('pk').first()
    s.cat.post_set.add(p, bulk=False)
    return [(p, False)]


def w_queryset(s):
    # no signals: Django does not load the objects
    Post.objects.update(title='q')
    s.pk += 1
    Post.objects.bulk_create([Post(pk=s.pk, title='b')])
    return []


def w_special(s):
    o = made(s, Special, title='s', extra='e')
    o.save()
    return [(o, True)]


def w_special_deleted(s):
    o = Special.objects.order_by('pk').first()
    if o is None:
        raise Prune()
    before = Special.objects.get(pk=o.pk)
    o.delete()
    return [(before, False), (Post(pk=before.pk, title='', category_id=before.category_id), False)]


def w_proxy(s):
    o = made(s, ProxyPost, title='p')
    o.save()
    return [(o, True)]


def w_proxy_deleted(s):
    o = ProxyPost.objects.order_by('pk').first()
    before = ProxyPost.objects.get(pk=o.pk)
    if Special.objects.filter(pk=o.pk).exists():
        raise Prune()
    o.delete()
    return [(before, False)]


def w_deleted(s):
    o = Post.objects.order_by('pk').first()
    if Special.objects.filter(pk=o.pk).exists():
        raise Prune()
    before = Post.objects.get(pk=o.pk)
    o.delete()
    return [(before, False)]


def w_filtered(s):
    if Special.objects.exists():
        raise Prune()
    gone = list(Post.objects.filter(pk__gt=2))
    Post.objects.filter(pk__gt=2).delete()
    return [(o, False) for o in gone]


def w_other_database(s):
    p = made(s, title='t')
    p.save(using='second')
    return [(p, True)]


def w_copied(s):
    p = Post.objects.order_by('pk').first()
    new = not Post.objects.using('second').filter(pk=p.pk).exists()
    p.category = None
    p.save(using='second')
    return [(p, new)]


def w_deleted_there(s):
    gone = list(Post.objects.using('second'))
    Post.objects.using('second').all().delete()
    return [(o, False) for o in gone]


def w_rolled_back(s):
    p = made(s, title='t')
    try:
        with transaction.atomic():
            p.save()
            raise RuntimeError()
    except RuntimeError:
        pass
    return [(p, True)]


def w_failing(s):
    p = Post(pk=Post.objects.order_by('pk').first().pk, title='t')
    try:
        with transaction.atomic():
            p.save(force_insert=True)
    except IntegrityError:
        pass
    return []


WAYS = [w_plain, w_update(), w_update('title'), w_update('category'), w_update('category_id'), w_update(force_update=True), w_no_fields, w_same,
        w_deferred, w_only, w_raw, w_deserialized, w_get_or_create, w_update_or_create, w_related, w_moved, w_queryset, w_special, w_special_deleted,
        w_proxy, w_proxy_deleted, w_deleted, w_filtered, w_other_database, w_copied, w_deleted_there, w_rolled_back, w_failing]


def ways(forms, aliases, models, depth=2):
    """Every way Django has to save and to delete, one after the other."""
    def run(ch):
        s = Sys(ch, ['post.pk:%d' % i for i in range(5, 10)])
        # no receiver is there yet
        s.cat = Category(pk=1, name='c')
        s.cat.save()
        for i in range(2):
            made(s, title='t').save()
        made(s, title='t', category=s.cat).save()
        model = ch.pick(models)
        s.registry.register([s.handler(model, ch.pick(forms), ch.pick(aliases))])
        out = []
        for i in range(depth):
            k = ch.choose(len(WAYS))
            if not Post.objects.exists() and k not in (0, 10, 11, 12):
                raise Prune()
            events = WAYS[k](s)
            out.append(s.verify('way %d (%s)' % (k, WAYS[k].__name__), s.expect(events)))
        return repr(out[-1:])
    return clean(run)


def clean(body):
    def run(ch):
        try:
            return body(ch)
        finally:
            no_receivers()
    return run


def single(depth):
    """One registration in each form; all histories."""
    def run(ch):
        s = Sys(ch)
        model = ch.pick([Post, Category])
        form = ch.pick(FORMS)
        alias = ch.pick(ALIASES)
        s.registry.register([s.handler(model, form, alias)])
        out = []
        for i in range(depth):
            k = ch.pick(s.possible())
            out.append(s.op(k))
        return form[0], alias, repr(out[-1:])
    return clean(run)


def several(count, forms, aliases):
    """Several registrations, in one call or in several; a fixed history that covers every kind of event."""
    def run(ch):
        s = Sys(ch)
        batch = []
        for i in range(count):
            if i >= 2 and ch.choose(2):
                break
            batch.append(s.handler(ch.pick([Post, Category]), ch.pick(forms), ch.pick(aliases)))
        split = ch.choose(3)
        if split == 0:
            s.registry.register(batch)
        elif split == 1:
            for b in batch:
                s.registry.register([b])
        else:
            s.registry.register(tuple(batch[:1]))
            CacheRegistry().register(batch[1:])
        out = []
        for k in (1, 0, 2, 6, 7, 2, 3, 0, 5):
            if k in s.possible():
                out.append(s.op(k))
        return repr(out)
    return clean(run)


def threads(ch):
    """Handlers registered in one thread, signals sent in others."""
    s = Sys(ch)
    form = ch.pick(FORMS[:4])
    alias = ch.pick([a for a in ALIASES if a != 'object'])
    s.registry.register([s.handler(Post, form, alias)])
    p = Post(pk=1, title='x')
    signal = ch.choose(2)

    def body():
        if signal:
            model_signals.post_save.send(sender=Post, instance=p, created=True, raw=False, using='default', update_fields=None)
        else:
            model_signals.pre_delete.send(sender=Post, instance=p, using='default')
    a, b = rt.sessions(2)
    for t in (a, b):
        t.call(body)
        s.verify('signal in another thread', s.expect([(p, True)]))
    return form[0], alias


def scopes(ch):
    """Within a transaction of the registered cache: invalidated at once and, for others, again when it ends."""
    s = Sys(ch)
    alias = ch.pick(['rr_p', 'default'])
    s.registry.register([s.handler(Post, FORMS[ch.choose(2)], alias)])
    c = dcd.caches[alias]
    with c.transaction:
        p = Post(pk=1, title='t')
        p.save(force_insert=True)
        s.verify('save in a transaction', s.expect([(p, True)]))
        other = rt.sessions(1)[0]

        def store():
            dcd.caches[alias].set('during', 1, ('post',), 1000)
        other.call(store)
    if c.get('during', None, abort=True) is not None:
        raise Violation('an entry created by another session during the transaction of the save survived its end')
    s.fill()
    with c.transaction:
        p.delete()
        other.call(store)
    if c.get('during', None, abort=True) is not None:
        raise Violation('an entry created by another session during the transaction of the delete survived its end')
    for a in dcd.caches.all():
        a.close()
    return alias


# ------------------------------------------------------------------------------------------------- autodiscovery

class Finder(object):
    """Installed applications that exist only here."""


def discover(ch):
    """The caches modules of all installed applications, and only these, are loaded, once."""
    from django.conf import settings
    s = Sys(ch)
    import shutil
    import tempfile
    root = tempfile.mkdtemp()
    have = [ch.choose(3) for i in range(2)]         # no caches module, one, one in a package nested below
    calls = 1 + ch.choose(2)
    loaded = []
    sys.modules['mc16_log'] = types.ModuleType('mc16_log')
    sys.modules['mc16_log'].loaded = loaded
    old = settings.INSTALLED_APPS
    names = []
    try:
        for i, h in enumerate(have):
            top = 'mc16app%d' % i
            path = os.path.join(root, top)
            os.mkdir(path)
            open(os.path.join(path, '__init__.py'), 'w').close()
            name = top
            if h == 2:
                path = os.path.join(path, 'sub')
                os.mkdir(path)
                open(os.path.join(path, '__init__.py'), 'w').close()
                name += '.sub'
            if h:
                with open(os.path.join(path, 'caches.py'), 'w') as f:
                    f.write('import mc16_log\nmc16_log.loaded.append(%r)\n'
                            'from django_cache_dependencies import registry\nfrom mc.props.c16 import Post, keywords\n'
                            'registry.register([(Post, lambda obj: "cat:%d", %r)])\n' % (name, i + 1, ['default', 'rc_b'][i]))
            names.append(name)
        sys.path.insert(0, root)
        import importlib
        importlib.invalidate_caches()
        settings.INSTALLED_APPS = ['django.contrib.contenttypes'] + names
        for i in range(calls):
            autodiscover()
        want = [n for n, h in zip(names, have) if h]
        if loaded != want:
            raise Violation('loaded the caches modules of %s instead of %s' % (loaded, want))
        p = Post(pk=1, title='t')
        p.save(force_insert=True)
        s.verify('save', {'default': {'cat:1'} if have[0] else set(), 'rc_b': {'cat:2'} if have[1] else set(), 'rr_p': set()})
    finally:
        settings.INSTALLED_APPS = old
        if root in sys.path:
            sys.path.remove(root)
        sys.path_importer_cache.pop(root, None)
        for m in [m for m in sys.modules if m.startswith('mc16app') or m == 'mc16_log']:
            del sys.modules[m]
        shutil.rmtree(root)
    return repr(have)


def harnesses(tier):
    deep = tier == 'thorough'
    few = [FORMS[i] for i in (0, 1, 4, 14)]
    return [
        Harness('one registration', single(4 if deep else 3), about='every form of registration, all histories'),
        Harness('ways', ways([FORMS[i] for i in ((0, 1, 14) if not deep else range(len(FORMS)))], ['absent', 'rr_p'] if not deep else ALIASES,
                             [Post, Special, ProxyPost]), about='every way to save and delete, all pairs'),
        Harness('two registrations', several(2, few if not deep else FORMS, ['absent', 'rc_b', 'object']), about='pairs of registrations'),
        Harness('three registrations', several(3, FORMS[:2], ['default', 'rr_p']), about='triples of registrations'),
        Harness('threads', clean(threads), about='signals in other threads'),
        Harness('transactions', clean(scopes), about='signals within transactions'),
        Harness('autodiscovery', clean(discover), about='installed applications with and without handlers'),
    ]
