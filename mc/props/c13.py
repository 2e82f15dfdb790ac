"""The page cache: request histories through the decorator and the middleware, against a model of what may be served."""
import re
from mc.sut import *
from mc import remote
from django.core import signals
from django.conf import settings
from django.utils import timezone, translation
from django.http import HttpResponse, HttpResponseRedirect, StreamingHttpResponse
from django.template import engines
from django.template.response import SimpleTemplateResponse
from django.test import RequestFactory
from django_cache_dependencies.decorators import cache_page
from django_cache_dependencies.middleware import CacheMiddleware, FetchFromCacheMiddleware, UpdateCacheMiddleware
from django_cache_dependencies.utils import prevent_cache_page

ASSUMPTIONS = [
    'the fragments of a page live in the cache alias of the page',
    'the view tags everything its page shows (by its tags function, the request or fragments)',
]

factory = RequestFactory()
compiled = {}

cleanup = remote.cleanup


def template(source):
    if source not in compiled:
        compiled[source] = engines['django'].from_string('{% load cache_tagging_tags %}' + source)
    return compiled[source]


class User(object):
    def __init__(self, known):
        self.known = known

    def is_authenticated(self):
        return self.known


class UserSession(object):
    accessed = False


class Site(object):
    """One view, published in a way, and the data it shows."""

    def __init__(self, ch, ingredients, vary, publish, alias='default', prefix=None, timeout=600):
        rt.fresh()
        self.ch = ch
        self.ingredients = ingredients
        self.vary = vary
        self.alias = alias
        self.timeout = timeout
        self.data = {}
        self.serial = 0
        self.pages = []             # what has been stored: dicts
        self.behaviour = 'normal'
        self.tags_called = 0
        self.app = self.publish(publish, prefix)

    # -- the site

    def cache(self):
        return dcd.caches[self.alias]

    def now(self, tag):
        return '%s=%d;' % (tag, self.data.get(tag, 0))

    def fragment(self, name, body, tags):
        c = self.cache()
        key = 'frag_' + name
        v = c.get(key)
        if v is None:
            v = body()
            c.set(key, v, tags, 1000)
        return v

    def show(self, request):
        out = ''
        tags = set()
        if 'view' in self.ingredients:
            out += self.now('v')
        if 'path' in self.ingredients:
            t = 'path' + request.path.strip('/')
            out += self.now(t)
        if 'request' in self.ingredients:
            if not hasattr(request, 'cache_tagging'):
                request.cache_tagging = set()
            request.cache_tagging.add('r')
            out += self.now('r')
        if 'fragment' in self.ingredients:
            out += self.fragment('f', lambda: self.now('f'), ('f',))
        if 'nested' in self.ingredients:
            out += self.fragment('n', lambda: self.now('n') + self.fragment('f', lambda: self.now('f'), ('f',)), ('n',))
        if 'variant' in self.ingredients:
            t = 'c' + request.META.get('HTTP_COOKIE', '')
            out += self.fragment(t, lambda: self.now(t), (t,))
        if 'template' in self.ingredients:
            out += template("{% cache_tagging 'tpl' 'g' %}{{ g }}{% cache_add_tags 'h' %}{{ h }}{% end_cache_tagging %}").render(
                {'g': self.now('g'), 'h': self.now('h'), 'request': request}, None)
        if 'callback' in self.ingredients:
            out += self.cache().get_or_set_callback('frag_cb', lambda: self.now('k'), ('k',), 1000)
        if 'many' in self.ingredients:
            c = self.cache()
            got = c.get_many(['m1', 'm2'])
            for k, t in (('m2', 'mb'), ('m1', 'ma')):
                if k not in got:
                    got[k] = self.now(t)
                    c.set(k, got[k], (t,), 1000)
            out += got['m1'] + got['m2']
        return out

    def view(self, request):
        self.rendered += 1
        b = self.behaviour
        self.serial += 1
        self.current = self.serial
        body = lambda: '[%d %s]' % (self.serial, request.method) + self.show(request)
        if b == 'raise':
            body()
            raise RuntimeError('view')
        if b == 'streaming':
            return StreamingHttpResponse([body()])
        if b.startswith('template response'):
            class Late(object):
                def render(inner, context=None, request=None):
                    return body()
            response = SimpleTemplateResponse(Late())
        elif b == 'redirect':
            response = HttpResponseRedirect('/x/')
            response.content = body()
        elif b == 'error before':
            return HttpResponse('[%d %s]' % (self.serial, request.method), status=503)
        else:
            response = HttpResponse(body(), status={'404': 404, '500': 500, '201': 201, '203': 203}.get(b, 200))
        if b == 'prevent':
            prevent_cache_page(request)
        if b == 'template prevent':
            template("{% cache_tagging 'prev' 'g' %}{% if 1 %}{% cache_tagging_prevent %}{% endif %}{% end_cache_tagging %}").render(
                {'request': request}, None)
        if b == 'max-age=0':
            response['Cache-Control'] = 'max-age=0'
        if b.endswith('max-age'):
            response['Cache-Control'] = 'max-age=30'
        if b == 'logged in':
            request.session.accessed = True
        v = self.vary
        if v == 'by cookie':
            v = 'Cookie' if request.META.get('HTTP_COOKIE') == 'b' else None
        if v:
            response['Vary'] = v
        return response

    def tags(self, request):
        out = []
        if 'view' in self.ingredients:
            out.append('v')
        if 'path' in self.ingredients:
            out.append('path' + request.path.strip('/'))
        return out

    def publish(self, how, prefix):
        a = None if self.alias == 'default' else self.alias

        class Tagged(UpdateCacheMiddleware):
            tags = staticmethod(self.tags)

        class Fetch(FetchFromCacheMiddleware):
            pass
        if how == 'decorator':
            return cache_page(self.timeout, tags=self.tags, cache=a, key_prefix=prefix)(self.view)
        if how == 'decorator, old spelling':
            return cache_page(self.view, self.timeout, tags=self.tags, cache=a, key_prefix=prefix)
        if how == 'decorator, old spelling 2':
            return cache_page(self.timeout, self.view, tags=self.tags, cache=a, key_prefix=prefix)
        if how == 'decorator, bare':
            return cache_page(self.view, tags=self.tags, cache=a, key_prefix=prefix)
        if how == 'decorator, no timeout':
            return cache_page(tags=self.tags, cache=a, key_prefix=prefix)(self.view)
        if how == 'middleware':
            u, f = Tagged(None), Fetch(None)
            if prefix:
                u.key_prefix = f.key_prefix = prefix
            u.cache_alias = f.cache_alias = self.alias
            u.cache_timeout = self.timeout
            f.get_response = self.view
            u.get_response = f
            return u
        if how == 'middleware, old':
            u, f = Tagged(), Fetch()
            u.cache_timeout = self.timeout
            u.cache_alias = f.cache_alias = self.alias
            if prefix:
                u.key_prefix = f.key_prefix = prefix

            def app(request):
                response = f.process_request(request)
                if response is None:
                    response = self.view(request)
                    if hasattr(response, 'render') and callable(response.render):
                        response = response.render()
                return u.process_response(request, response)
            return app
        if how == 'one middleware':
            return CacheMiddleware(self.view, tags=self.tags, cache_alias=self.alias, key_prefix=prefix or '',
                                   **({} if self.timeout == 600 else {'cache_timeout': self.timeout}))
        if how == 'stacked':
            u, f = UpdateCacheMiddleware(None), Fetch(None)
            u.key_prefix = f.key_prefix = 'outer'
            u.cache_alias = f.cache_alias = self.alias
            f.get_response = cache_page(self.timeout, tags=self.tags, cache=a, key_prefix=prefix)(self.view)
            u.get_response = f
            return u
        if how == 'anonymous only':
            return CacheMiddleware(self.view, tags=self.tags, cache_alias=self.alias, cache_anonymous_only=True)
        raise KeyError(how)

    def varying(self, page_vary, headers):
        return tuple(headers.get(h.strip().lower()) for h in page_vary.split(',')) if page_vary else ()

    # -- the driver and the model

    STORED = ('normal', 'template response', 'max-age', 'template response, max-age')

    localized = False

    def request(self, method='GET', path='/p/', cookie=None, behaviour='normal', language=None, user=None, zone=None, host=None,
                secure=False):
        self.ch.note('%s %s cookie=%s %s' % (method, path, cookie, behaviour))
        extra = {}
        if cookie is not None:
            extra['HTTP_COOKIE'] = cookie
        if language is not None:
            extra['HTTP_ACCEPT_LANGUAGE'] = language
        if host is not None:
            extra['HTTP_HOST'] = host
        headers = {'cookie': cookie, 'accept-language': language}
        request = getattr(factory, method.lower())(path, secure=secure, **extra)
        path = '%s://%s%s' % ('https' if secure else 'http', host or 'testserver', path)
        if self.localized:
            # what LocaleMiddleware and a time zone middleware around the cache do
            translation.activate(language)
            timezone.activate(timezone.get_fixed_timezone(zone))
            path = '%s in %s, zone %s' % (path, language, zone)
            self.ch.note('   %s' % path)
        request.session, request.user = UserSession(), User(user)
        self.behaviour = behaviour
        self.rendered = 0
        raised = False
        content = None
        try:
            response = self.app(request)
            if hasattr(response, 'render') and callable(response.render) and not response.is_rendered:
                response = response.render()
            content = b''.join(response).decode('utf8')
        except RuntimeError:
            raised = True
        signals.request_finished.send(sender=Site)
        if behaviour == 'raise' and self.rendered and not raised:
            raise Violation('the exception of the view was swallowed')
        if raised:
            return
        self.ch.note('   -> %s%s' % (content, '' if self.rendered else ' (cached)'))
        m = re.match(r'\[(\d+) (\w+)\]', content)
        serial = int(m.group(1))
        fresh = self.rendered > 0
        if fresh and serial != self.current:
            raise Violation('the view ran, but its response was replaced by another one')
        # what it shows must be up to date, however it was produced
        for tag, n in re.findall(r'(\w+)=(\d+);', content):
            if int(n) != self.data.get(tag, 0):
                raise Violation('%s response shows %s=%s after the invalidation of %s; up to date is %d' % (
                    'rendered' if fresh else 'cached', tag, n, tag, self.data.get(tag, 0)))
        allowed = [p for p in self.pages if p['path'] == path and p['valid'] and p['expires'] + 0.5 > rt.clock.now
                   and self.varying(p['vary'], headers) == p['values']
                   and (p['method'] == method or method == 'HEAD' and p['method'] == 'GET') and method in ('GET', 'HEAD')]
        if not fresh:
            if serial not in [p['serial'] for p in allowed]:
                raise Violation('%s %s (cookie %s) was served response %d, which was %s' % (
                    method, path, cookie, serial,
                    'stored for another request or has been invalidated' if serial in [p['serial'] for p in self.pages]
                    else 'never to be stored'))
            if response.status_code != 200:
                raise Violation('a response with status %d came from the cache' % response.status_code)
            return
        same = [p for p in self.pages if p['path'] == path]
        if allowed and all(p['valid'] and p['expires'] - 0.5 > rt.clock.now and p['vary'] == same[0]['vary'] for p in same):
            raise Violation('%s %s (cookie %s) ran the view although response %s was stored and is unaffected' % (
                method, path, cookie, allowed[-1]['serial']))
        if method in ('GET', 'HEAD') and (behaviour in self.STORED or behaviour == 'logged in' and not (self.anonymous and user)):
            vary = response.get('Vary')
            tags = set(re.findall(r'(\w+)=\d+;', content))
            self.pages = [p for p in self.pages if not (p['path'] == path and p['method'] == method and p['vary'] == vary
                                                        and p['values'] == self.varying(vary, headers))]
            self.pages.append({'path': path, 'method': method, 'serial': serial, 'vary': vary, 'tags': tags, 'valid': True,
                               'values': self.varying(vary, headers),
                               'expires': rt.clock.now + (30 if behaviour.endswith('max-age') else self.timeout)})

    anonymous = False

    def invalidate(self, tag):
        self.ch.note('invalidate %s' % tag)
        self.data[tag] = self.data.get(tag, 0) + 1
        remote.invalidator(self.cache(), self.alias).invalidate_tags(tag)
        signals.request_finished.send(sender=Site)
        for p in self.pages:
            if tag in p['tags']:
                p['valid'] = False

    def outcome(self):
        return repr([(p['path'], p['method'], p['vary'], p['valid'], sorted(p['tags'])) for p in self.pages])


TAGS = {'view': ['v'], 'path': ['pathp', 'pathq'], 'request': ['r'], 'fragment': ['f'], 'nested': ['n', 'f'],
        'variant': ['ca', 'cb'], 'template': ['g', 'h'], 'callback': ['k'], 'many': ['ma', 'mb']}


def in_thread(body):
    def run(ch):
        s = rt.Session()
        try:
            return s.call(lambda: body(ch))
        finally:
            s.stop()
    return run


def ingredients(publish, mixes, depth, alias='default', prefix=None):
    def run(ch):
        mix = ch.pick(mixes)
        vary = ch.pick([None, 'Cookie'])
        site = Site(ch, mix, vary, publish, alias, prefix)
        ch.note('%s, vary %s, %s' % (mix, vary, publish))
        tags = sorted(set(sum([TAGS[i] for i in mix], []))) + ['unrelated']
        ops = [lambda: site.request(cookie='a'), lambda: site.request(cookie='b'), lambda: site.request('HEAD', cookie='a')]
        if 'path' in mix:
            ops += [lambda: site.request(path='/q/', cookie='a')]
        ops += [lambda t=t: site.invalidate(t) for t in tags]
        for i in range(depth):
            ops[ch.choose(len(ops))]()
        site.request(cookie='a')
        site.request(cookie='b')
        return site.outcome()
    return in_thread(run)


def behaviours(publish, kinds, depth, anonymous=False):
    def run(ch):
        site = Site(ch, ['view', 'fragment'], None, publish)
        site.anonymous = anonymous
        for i in range(depth):
            k = ch.choose(len(kinds) + 3)
            if k < len(kinds):
                method = ch.pick(['GET', 'HEAD', 'POST']) if kinds[k] == 'normal' else ch.pick(['GET', 'HEAD'])
                site.request(method, behaviour=kinds[k], user=(anonymous or kinds[k] == 'logged in') and ch.choose(2))
            elif k == len(kinds) + 2:
                ch.note('40 s pass')
                rt.clock.advance(40)
            elif k == len(kinds):
                site.invalidate('f')
            else:
                site.invalidate('v')
        for method in ch.pick([('GET', 'HEAD'), ('HEAD', 'GET')]):
            site.request(method)
        return site.outcome()
    return in_thread(run)


def timeouts(publish, depth):
    """A page lives as long as the view, the middleware or the response says."""
    bare = publish in ('decorator, bare', 'decorator, no timeout')
    kinds = ['normal', 'max-age', 'max-age=0']
    if publish.startswith('decorator'):
        kinds += ['template response', 'template response, max-age']

    def run(ch):
        t = ch.pick([600] if bare else [5, 60, 1000])
        site = Site(ch, ['view'], ch.pick([None, 'Cookie']), publish, timeout=t)
        ch.note('timeout %d' % t)
        kind = ch.pick(kinds)
        site.request(behaviour=kind)
        for i in range(depth):
            step = ch.pick([1, 3, 4, 27, 55, 595, 995])
            ch.note('%d s pass' % step)
            rt.clock.advance(step)
            site.request(ch.pick(['GET', 'HEAD']), behaviour=kind)
        return site.outcome()
    return in_thread(run)


def addresses(publish, vary, depth):
    """Which request is served which page."""
    def run(ch):
        site = Site(ch, ['view', 'variant'], vary, publish)
        for i in range(depth):
            k = ch.choose(9)
            if k < 7:
                site.request(['GET', 'HEAD', 'GET', 'GET', 'GET', 'GET', 'POST'][k], ['/p/', '/p/', '/p/', '/p/', '/p/?x=1', '/q/', '/p/'][k],
                             ['a', 'b', 'b', None, 'a', 'a', 'a'][k], language=['x', 'x', 'x', 'x', 'y', 'x', 'x'][k])
            else:
                site.invalidate(['v', 'ca'][k - 7])
        for cookie in ('a', 'b'):
            for lang in ('x', 'y'):
                site.request(cookie=cookie, language=lang)
        return site.outcome()
    return in_thread(run)


LONG = 'x' * 260
PLACES = [dict(path=p) for p in ('/p/', '/p', '/P/', '/p//', '/p/p/', '/q/', '/p/?x', '/p/?x=', '/p/?x=1', '/p/?x=1&', '/p/?x=1&y=2', '/p/?y=2&x=1',
                                 '/p/?x=1&x=1', '/p/?X=1', '/p/?x=%31', '/p/?x=+1', '/p/?x=%201', '/p/%20/', '/p/%C3%A9/', '/p/%25/', '/p/x=1', '/p/?x=http://testserver/p/',
                                 '/' + LONG, '/' + LONG + 'x', '/p/?' + LONG, '/p/?' + LONG + 'a', '/p/?a' + LONG, '/p/?' + LONG + 'a' + LONG,
                                 '/p/?' + LONG + 'b' + LONG)] + [
    dict(host='other'), dict(host='testserver:81'), dict(host='www.testserver'), dict(secure=True), dict(secure=True, host='other')]
PLACES += [dict(cookie=c) for c in ('a', 'A', 'a ', 'a;', 'a;b', 'b;a', 'aa', '0', 'a\t', u'\u00e9', LONG, LONG + 'x', LONG + 'a' + LONG, LONG + 'b' + LONG)]


def odd_addresses(publish):
    """Pairs of requests that differ only just: each has a page of its own."""
    def run(ch):
        site = Site(ch, ['view'], 'Cookie', publish)
        i = ch.choose(len(PLACES))
        j = ch.choose(len(PLACES))
        a, b = PLACES[i], PLACES[j]
        if i == j:
            raise Prune()
        first = ch.pick(['GET', 'HEAD'])
        for k in (a, b, a, b):
            site.request(first, **k)
        site.request(**b)
        site.request('HEAD', **a)
        site.invalidate('v')
        site.request(**b)
        site.request(**a)
        return i < j
    return in_thread(run)


def localized(publish, depth):
    """Pages in several languages and time zones; the language is chosen by a header that the page varies on."""
    def run(ch):
        vary = ch.pick(['Accept-Language, Cookie', 'Cookie, Accept-Language', 'Accept-Language', None])
        old = settings.USE_I18N, settings.USE_TZ
        settings.USE_I18N = settings.USE_TZ = True
        translation._trans.__dict__.clear()
        try:
            site = Site(ch, ['view', 'variant'] if vary and 'Cookie' in vary else ['view'], vary, publish)
            site.localized = True
            ch.note('vary %s' % vary)
            kinds = [(cookie, language, zone) for cookie in 'ab' for language in ('en', 'de') for zone in (60, 120)]
            for i in range(depth):
                k = ch.choose(len(kinds) + 1)
                if k == len(kinds):
                    site.invalidate('v')
                else:
                    site.request('GET', '/p/', kinds[k][0], 'normal', kinds[k][1], None, kinds[k][2])
            for cookie, language, zone in kinds:
                site.request('GET', '/p/', cookie, 'normal', language, None, zone)
            return site.outcome()
        finally:
            translation.deactivate()
            timezone.deactivate()
            settings.USE_I18N, settings.USE_TZ = old
            translation._trans.__dict__.clear()
    return in_thread(run)


def two_sites(ch):
    """Two views of one address in two caches or with two prefixes: neither is served the other's pages."""
    how = ch.pick(['decorator', 'middleware', 'one middleware'])
    second = ch.pick([('rc_b', None), ('default', 'other')])
    one = Site(ch, ['view', 'fragment'], None, how)
    stores, n = rt.world.stores, rt.clock.now
    two = Site(ch, ['view', 'fragment'], None, how, second[0], second[1])
    two.serial = 1000
    if second[0] == 'default':
        # one cache: fragments are shared, so the data are
        two.data = one.data
    for i in range(5):
        k = ch.choose(4)
        if k == 0:
            one.request()
        elif k == 1:
            two.request()
        elif k == 2:
            one.invalidate('v')
            if second[0] == 'default':
                for p in two.pages:
                    p['valid'] = False
        else:
            two.invalidate('f')
            if second[0] == 'default':
                for p in one.pages:
                    p['valid'] = False
    one.request()
    two.request()
    return one.outcome(), two.outcome()


def transactions(ch):
    """Pages built while another session changes what they show."""
    site = Site(ch, ['view', 'fragment'], None, ch.pick(['decorator', 'middleware']), 'rr0')
    other = rt.sessions(1)[0]
    other.call(lambda: dcd.caches['rr0'].close())
    changing = []
    shown = dict(site.data)
    for i in range(6):
        rt.clock.advance(0.25)
        k = ch.pick([0, 2, 3] if changing else [0, 1, 3])
        if k == 0:
            # pages shown while the change is in progress show the old data: the database is not committed yet
            before = len(site.pages)
            known = [p['serial'] for p in site.pages]
            site.request()
            if changing:
                for p in site.pages:
                    if p['serial'] not in known and set(changing) & p['tags']:
                        p['valid'] = False
        elif k == 3:
            site.invalidate('f')
        elif k == 1:
            t = ch.pick(['f', 'v'])
            changing = [t]
            ch.note('another session begins and invalidates %s' % t)

            def begin():
                c = dcd.caches['rr0']
                c.transaction.begin()
                c.invalidate_tags(t)
            other.call(begin)
            for p in site.pages:
                if t in p['tags']:
                    p['valid'] = False
        else:
            ch.note('it commits')
            site.data[changing[0]] = site.data.get(changing[0], 0) + 1
            other.call(lambda: dcd.caches['rr0'].transaction.finish())
            changing = []
            rt.clock.advance(0.25)
    other.call(lambda: dcd.caches['rr0'].close())
    if not changing:
        site.request()
        site.request()
    return site.outcome()


PUBLISH = ['decorator', 'middleware', 'middleware, old', 'one middleware']
KINDS = ['normal', '404', '500', 'redirect', 'raise', 'streaming', 'prevent', 'template prevent', 'max-age=0', 'max-age', 'template response',
         '201', 'error before', 'logged in', 'template response, max-age']


def with_etags(body):
    def run(ch):
        settings.USE_ETAGS = True
        try:
            return body(ch)
        finally:
            settings.USE_ETAGS = False
    return run


def harnesses(tier):
    deep = tier == 'thorough'
    d = 1 if deep else 0
    mixes = [['view', 'request'], ['fragment'], ['view', 'fragment'], ['nested'], ['template'], ['request', 'template'], ['callback', 'many'],
             ['path', 'fragment']]
    out = []
    remote.start(1)
    for p in ('decorator', 'middleware'):
        out.append(Harness('invalidations elsewhere, ' + p, remote.invalidating(ingredients(p, mixes, 3 + d)), about='invalidations by another program'))
    for p in PUBLISH + ['stacked']:
        less = 0 if deep or p in ('decorator', 'middleware') else 1
        out.append(Harness('ingredients, ' + p, ingredients(p, mixes, 4 + d - less), about='all histories of requests and invalidations'))
        out.append(Harness('behaviours, ' + p, behaviours(p, [k for k in KINDS if not k.startswith('template response') or p not in ('middleware', 'one middleware', 'stacked')], 2 + d),
                           about='all histories of view behaviours and methods'))
        for v in (None, 'Cookie', 'by cookie', 'Cookie, Accept-Language'):
            out.append(Harness('addresses, %s, %s' % (p, v), addresses(p, v, 3 + d), about='all histories over addresses and varying headers'))
    for p in ('decorator', 'middleware'):
        out.append(Harness('localized, ' + p, localized(p, 2 + d), about='all histories over languages, time zones and cookies'))
    for p in ('decorator', 'middleware'):
        out.append(Harness('odd addresses, ' + p, odd_addresses(p), about='all pairs of %d requests that differ only just' % len(PLACES)))
    for p in ('decorator', 'one middleware'):
        out.append(Harness('addresses, %s, other order' % p, addresses(p, 'Accept-Language, X-Other,Cookie', 3), about='three varying headers'))
    for p in ('decorator, old spelling', 'decorator, old spelling 2', 'decorator, bare', 'decorator, no timeout'):
        out.append(Harness('ingredients, ' + p, ingredients(p, [['view', 'fragment']], 3), about='each spelling of the decorator'))
    out.append(Harness('ingredients, another cache', ingredients('decorator', [['view', 'request'], ['nested']], 4, 'rc_b'), about='cache alias given'))
    out.append(Harness('ingredients, prefix', ingredients('one middleware', [['view', 'request'], ['nested']], 4, 'default', 'pre'), about='key prefix given'))
    out.append(Harness('anonymous only', behaviours('anonymous only', ['normal', 'logged in', 'prevent'], 3 + d, True), about='pages of users are not stored'))
    for p in ('decorator', 'middleware, old', 'one middleware'):
        out.append(Harness('etags, ' + p, with_etags(behaviours(p, ['normal', 'template response', 'streaming', 'max-age', '404'] if p == 'decorator' else
                                                                ['normal', 'streaming', 'max-age', '404'], 2)), about='with entity tags'))
    for p in ('decorator', 'decorator, old spelling', 'decorator, old spelling 2', 'decorator, bare', 'decorator, no timeout', 'middleware',
              'middleware, old', 'one middleware'):
        out.append(Harness('timeouts, ' + p, timeouts(p, 2 + d), about='timeouts of the view and the response'))
    out.append(Harness('two sites', in_thread(two_sites), about='all histories of two sites'))
    out.append(Harness('transactions', in_thread(transactions), about='all histories with a concurrent transaction'))
    return out
