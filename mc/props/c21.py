"""Requests through the transaction middleware, in every calling style, with tidy, sloppy and failing views."""
import io
import logging
from mc.props import c06
from mc.sut import *
from mc import urls
from django.conf import settings
from django.core.exceptions import PermissionDenied, SuspiciousOperation
from django.core.handlers.wsgi import WSGIHandler
from django.core.signals import request_finished
from django.http import Http404, HttpResponse, HttpResponseRedirect, StreamingHttpResponse
from django.template.response import SimpleTemplateResponse
from django.utils.decorators import decorator_from_middleware_with_args
from django_cache_dependencies.middleware import TransactionMiddleware

ASSUMPTIONS = [
    'what a view raises is an Exception: nothing of Django closes a request that was left by SystemExit',
    'the middleware is used as a decorator on views whose response does not fail to render later (Django does not report it)',
    'middleware other than the transaction middleware does not raise on the way out in the old style',
]
logging.disable(logging.CRITICAL)
WORKER, OTHER, READER = 0, 1, 2


# ------------------------------------------------------------------------------------------------ the stack

class RC(TransactionMiddleware):
    def __init__(self, get_response=None):
        TransactionMiddleware.__init__(self, get_response, cache_alias='rc0')


class RR(TransactionMiddleware):
    def __init__(self, get_response=None):
        TransactionMiddleware.__init__(self, get_response, cache_alias='rr0')


class RCP(TransactionMiddleware):
    def __init__(self, get_response=None):
        TransactionMiddleware.__init__(self, get_response, cache_alias='rc2')


plan = {}


class Neighbour(object):
    """Another middleware: may answer by itself, may fail."""
    name = None

    def __init__(self, get_response=None):
        self.get_response = get_response

    def process_request(self, request):
        do = plan.get(self.name)
        if do == 'answers':
            return HttpResponse('by ' + self.name)
        if do == 'fails':
            raise ValueError('in ' + self.name)

    def process_view(self, request, *args):
        if plan.get(self.name) == 'fails before the view':
            raise ValueError('in process_view')

    def process_exception(self, request, exception):
        if plan.get(self.name) == 'handles':
            return HttpResponse('handled')

    def __call__(self, request):
        response = self.process_request(request)
        if response is None:
            response = self.get_response(request)
        if plan.get(self.name) == 'fails after':
            raise ValueError('after')
        return response


class Outer(Neighbour):
    name = 'outer'


class Inner(Neighbour):
    name = 'inner'


handlers = {}
MW = {'rc0': 'RC', 'rr0': 'RR', 'rc2': 'RCP'}


def handler(style, alias):
    if (style, alias) not in handlers:
        names = ['mc.props.c21.Outer', 'mc.props.c21.' + MW[alias], 'mc.props.c21.Inner']
        if style in ('decorator', 'bare'):
            names = []
        if style == 'old':
            settings.MIDDLEWARE, settings.MIDDLEWARE_CLASSES = None, names
        else:
            settings.MIDDLEWARE = names
        handlers[style, alias] = WSGIHandler()
    return handlers[style, alias]


decorated = decorator_from_middleware_with_args(TransactionMiddleware)


def environ():
    return {'REQUEST_METHOD': 'GET', 'PATH_INFO': '/v', 'SERVER_NAME': 'x', 'SERVER_PORT': '80', 'wsgi.input': io.BytesIO(), 'wsgi.url_scheme': 'http'}


# ------------------------------------------------------------------------------------------------ the world

class Sys(c06.Sys):
    """The model of transactions of C06, with requests."""

    def __init__(self, ch, alias):
        for c in dcd.caches.all():
            c.close()
        c06.Sys.__init__(self, ch, alias, (None,), rt.TICK)
        self.coll = dcd.caches
        self.inside = False
        self.s[WORKER].call(lambda: [c.close() for c in dcd.caches.all()])
        self.s[OTHER].call(lambda: [c.close() for c in dcd.caches.all()])
        self.left = None

    def run(self, who, fn, text=None):
        if who == WORKER and self.inside:
            if text and self.ch.log is not None:
                self.ch.note('    view: %s' % text)
            return fn(self.coll[self.alias])
        return c06.Sys.run(self, who, fn, text)

    def reads(self, who, keys):
        if who == WORKER and self.inside:
            return [self.coll[self.alias].get(k, MISSING, v, abort=True) for k, v in keys]
        return c06.Sys.reads(self, who, keys)

    def request(self, style, view, opened=True):
        """view(s): returns a response.  Returns a function that finishes the request."""
        self.ch.note('request (%s)' % style)

        def body(request):
            self.inside = True
            if opened and style != 'bare':
                self.depth[0] += 1
            try:
                return view(self)
            finally:
                self.inside = False
        if style == 'decorator':
            body = decorated(cache_alias=self.alias)(body)
        urls.current[0] = body
        h = handler(style, self.alias)
        status = []
        if style in ('decorator', 'bare') and plan:
            raise Prune()
        response = self.s[WORKER].call(lambda: h(environ(), lambda st, hd: status.append(st)))
        self.ch.note('  answered %s' % status[0])

        def finish():
            def rest():
                if response.streaming:
                    self.inside = True
                    try:
                        list(response)
                    except ValueError:
                        pass
                    finally:
                        self.inside = False
                response.close()
            self.s[WORKER].call(rest)
            self.ch.note('  request finished')
            if style == 'bare' and self.depth[0]:
                self.ended(0)
        if self.depth[0] and style != 'bare':
            self.ended(0)
        return status[0], finish


class Lazy(SimpleTemplateResponse):
    def __init__(self, fail):
        SimpleTemplateResponse.__init__(self, 'none')
        self.fail = fail

    @property
    def rendered_content(self):
        if self.fail:
            raise ValueError('rendering')
        return 'rendered'


def leave(e):
    def end(s):
        raise e
    return end


def streaming(s):
    def content():
        yield b'a'
        s.do_inv(WORKER, ('t',))
        s.do_begin(WORKER)
        s.do_inv(WORKER, ('u',))
        yield b'b'
    return StreamingHttpResponse(content())


ENDS = [
    ('returns', lambda s: HttpResponse('x')),
    ('raises', leave(ValueError('x'))),
    ('404', leave(Http404('x'))),
    ('denied', leave(PermissionDenied('x'))),
    ('lazy', lambda s: Lazy(False)),
    ('lazy, fails', lambda s: Lazy(True)),
    ('returns 500', lambda s: HttpResponse('x', status=500)),
    ('redirects', lambda s: HttpResponseRedirect('/')),
    ('suspicious', leave(SuspiciousOperation('x'))),
    ('None', lambda s: None),
]


# view actions -----------------------------------------------------------------

def a_invalidate(s):
    s.do_inv(WORKER, ('t',))


def a_nested(s):
    s.do_begin(WORKER)
    s.do_inv(WORKER, ('u', 'w'))
    s.do_finish(WORKER)


def a_begin(s):
    s.do_begin(WORKER)
    s.do_inv(WORKER, ('u',))


def a_finish(s):
    s.do_finish(WORKER)


def a_with(s):
    s.do_with(WORKER)


def a_flush(s):
    s.do_flush(WORKER)


def a_open_build(s):
    def body(c):
        c.get('p1')
        c.get('c1')
        c.set('c1', 'x', ('left',), 1000)
    s.run(WORKER, body, 'looks up p1, builds c1, never stores p1')


def a_aborted(s):
    def body(c):
        c.get('p1')
        try:
            c.get_or_set_callback('c1', lambda: 1 // 0, ('left',))
        except ZeroDivisionError:
            pass
        c.get('deeper')
    s.run(WORKER, body, 'looks up p1, fails to build c1')


def a_other_stores(s):
    s.do_set(OTHER, 'k1', ('t',))


def a_stores(s):
    s.do_set(WORKER, 'k2', ('u', 't'))


def a_other_alias(s):
    def body(c):
        b = dcd.caches['rr_b']
        b.transaction.begin()
        b.transaction.begin()
        b.invalidate_tags('t')
        b.get('p1')
    s.run(WORKER, body, 'begins a transaction of another cache')


def a_off(s):
    def body(c):
        c.begin('p1')
        c.begin('p2')
    s.run(WORKER, body, 'begins builds')


ACTIONS = [a_invalidate, a_other_stores, a_begin, a_finish, a_nested, a_open_build, a_stores, a_with, a_aborted, a_flush, a_off, a_other_alias]


def view_of(ch, actions, most, ends):
    """A view of up to `most` actions and an end."""
    chosen = []
    for i in range(most):
        k = ch.choose(len(actions) + 1)
        if k == 0:
            break
        chosen.append(actions[k - 1])
    name, end = ch.pick(ends)

    def view(s):
        for a in chosen:
            a(s)
            s.probe()
        s.ch.note('    view: %s' % name)
        return end(s)
    return view, tuple(a.__name__ for a in chosen) + (name,)


def between(s):
    """After the answer, before the end of the request; then after it."""
    s.probe()


def second(s, ch):
    """A request that must go as if it were the first of its thread."""
    alias = s.alias
    # another session is done with its transaction before the request begins
    s.do_begin(OTHER)
    s.do_inv(OTHER, ('z',))
    s.do_finish(OTHER)

    def view(s):
        v, ok = s.set_took_effect(WORKER, 'kz', ('z',))
        s.keys.add(('kz', None))
        if not ok:
            raise Violation('a request could not store an entry: it is taken for one that began before the other '
                            'transaction ended')
        s.model[None].store('kz', v, ('z',), None)

        def body(c):
            if c.get('p2') is None:
                if c.get('c2') is None:
                    c.set('c2', 'c', ('b',), 1000)
                c.set('p2', 'p', ('a',), 1000)
            if c.get('p1') is None:
                c.set('p1', 'p', ('c',), 1000)
        s.run(WORKER, body, 'builds p2 out of c2, and p1 out of nothing')
        s.model[None].store('p2', 'p', ('a', 'b'), None)
        s.model[None].store('c2', 'c', ('b',), None)
        s.model[None].store('p1', 'p', ('c',), None)
        s.keys |= {('p2', None), ('c2', None), ('p1', None)}
        s.probe()
        s.do_set(OTHER, 'k4', ('t', 'u', 'w'))
        return HttpResponse('second')
    return view


def requests(style_names, alias, actions, most, ends, count=1):
    def run(ch):
        plan.clear()
        style = ch.pick(style_names)
        s = Sys(ch, alias)
        s.do_set(OTHER, 'k1', ('t',))
        s.do_set(OTHER, 'k3', ('u', 'w'))
        seen = []
        for i in range(count):
            # Django does not tell a decorator made of a middleware about a failure to render later on
            view, name = view_of(ch, actions, most, [e for e in ends if style != 'decorator' or e[0] != 'lazy, fails'])
            status, finish = s.request(style, view)
            s.probe()
            # what another session stores from now on has nothing to do with the request
            s.do_set(OTHER, 'k1', ('t', 'left'))
            s.do_set(OTHER, 'k3', ('u', 'w'))
            s.probe()
            finish()
            if a_other_alias.__name__ in name:
                closed(s)
            s.probe()
            seen.append((name, status))
        view = second(s, ch)
        status, finish = s.request(style, view)
        if status[:3] != '200':
            raise Violation('the next request failed: %s' % status)
        s.probe()
        finish()
        s.probe()
        tag = ch.pick(['left', 'b', 'a', 'c'])
        s.do_inv(OTHER, (tag,))
        s.probe()
        return style, seen[-1], tag
    return run


def closed(s):
    """The transaction that was left open on another cache is over."""
    def body():
        b = dcd.caches['rr_b']
        b.set('k', 1, ('t',), 1000)
        return b.get('k', None, abort=True)
    if s.s[OTHER].call(body) != 1:
        raise Violation('the transaction of another cache is not closed by the end of the request')

    def new(c):
        with dcd.caches['rr_b'].transaction:
            dcd.caches['rr_b'].set('q', 1, ('own',), 1000)
    s.run(WORKER, new, 'a new transaction of the other cache')
    if s.s[OTHER].call(lambda: dcd.caches['rr_b'].get('k', None, abort=True)) != 1:
        raise Violation('the end of a new transaction invalidated the tags of one of the previous request')
    s.s[OTHER].call(lambda: dcd.caches['rr_b'].invalidate_tags('left', 't'))
    if s.s[OTHER].call(lambda: dcd.caches['rr_b'].get('q', None, abort=True)) != 1:
        raise Violation('an entry of the next request inherited tags of an aborted build')


def neighbours(styles, alias):
    """Other middleware that answers or fails."""
    def run(ch):
        style = ch.pick(styles)
        plan.clear()
        outer = ch.pick([None, 'answers', 'fails', 'handles', 'fails after'])
        inner = ch.pick([None, 'answers', 'fails', 'fails before the view', 'handles', 'fails after'])
        plan.update(outer=outer, inner=inner)
        try:
            s = Sys(ch, alias)
            s.do_set(OTHER, 'k1', ('t',))
            s.do_set(OTHER, 'k3', ('u', 'w'))
            view, name = view_of(ch, [a_invalidate, a_begin, a_open_build, a_other_stores], 2, ENDS[:3])
            status, finish = s.request(style, view)
            ch.note('outer %s, inner %s' % (outer, inner))
            s.probe()
            s.do_set(OTHER, 'k1', ('t', 'left'))
            s.do_set(OTHER, 'k3', ('u', 'w'))
            finish()
            s.probe()
            plan.clear()
            status, finish = s.request(style, second(s, ch))
            s.probe()
            finish()
            s.probe()
            s.do_inv(OTHER, (ch.pick(['left', 'b', 'a', 'c']),))
            s.probe()
        finally:
            plan.clear()
        return style, outer, inner, name, status
    return run


def failing(alias, styles):
    """The cache server fails once, at any call of a request, its end included; the next request must not notice."""
    other_alias = 'rr_b' if alias[:2] == 'rr' else 'rc_b'

    def run(ch):
        plan.clear()
        style = ch.pick(styles)
        s = Sys(ch, alias)
        c = dcd.caches
        kind = ch.choose(5)
        failed = []

        def first(s):
            cc = c[alias]
            if style == 'bare':
                cc.transaction.begin()
            if kind == 1:
                cc.transaction.begin()
            cc.invalidate_tags('t')
            if kind == 2:
                cc.get('p1')
                cc.set('c1', 'x', ('left',), 1000)
            if kind == 3:
                c[other_alias].transaction.begin()
                c[other_alias].get('p1')
                c[other_alias].set('c1', 'x', ('left',), 1000)
                c[other_alias].invalidate_tags('t')
            if kind == 4:
                cc.invalidate_tags('z', version=2)
                cc.get_or_set_callback('p1', lambda: cc.get_or_set_callback('c1', lambda: 'x', ('left',)), ())
            return HttpResponse('first')

        def fail(when):
            def hook(op, key):
                if not failed and ch.choose(2, [0, 1]):
                    failed.append((when, op))
                    ch.note('the backend fails %s %s %s' % (when, op, key))
                    raise rt.BackendError(when)
            return hook
        rt.world.hook, rt.world.after = fail('before'), fail('after')
        try:
            try:
                status, finish = s.request(style, first)
                finish()
            except rt.BackendError:
                ch.note('  the failure reached the server')
        finally:
            rt.world.hook = rt.world.after = None
        if not failed:
            raise Prune()
        # the next request of the thread
        rt.clock.advance(30)
        for a in (alias, other_alias):
            s.s[OTHER].call(lambda: c[a].transaction.begin())
            s.s[OTHER].call(lambda: c[a].invalidate_tags('z'))
            s.s[OTHER].call(lambda: c[a].transaction.finish())
        rt.clock.advance(3)
        seen = []

        def second(s):
            for a in (alias, other_alias):
                cc = c[a]
                cc.set('kz', 1, ('z',), 1000)
                seen.append(cc.get('kz', None, abort=True))
                if cc.get('p2') is None:
                    if cc.get('c2') is None:
                        cc.set('c2', 'c', ('b',), 1000)
                    cc.set('p2', 'p', ('a',), 1000)
                cc.delete('p1')
                if cc.get('p1') is None:
                    cc.set('p1', 'q', ('c',), 1000)
            if style == 'bare':
                with c[alias].transaction:
                    c[alias].invalidate_tags('own')
                    store()
            else:
                c[alias].invalidate_tags('own')
                store()
            return HttpResponse('second')

        def store():
            def body():
                c[alias].set('ko', 1, ('own',), 1000)
                return c[alias].get('ko', None, abort=True)
            seen.append(s.s[OTHER].call(body))
        s.inside = False
        status, finish = s.request(style, second)
        if status[:3] != '200':
            raise Violation('the next request failed: %s' % status)
        if seen[:2] != [1, 1]:
            raise Violation('the next request could not store an entry: it is taken for one that began earlier')
        if alias[:2] == 'rr' and seen[2] is not None:
            raise Violation('another session stored an entry in spite of the transaction of the next request')
        rt.clock.advance(3)
        store()
        if seen[3] != 1:
            raise Violation('the transaction of the next request was not closed when it was answered')
        finish()
        reader = s.s[READER]

        def check(what, want):
            for a in (alias, other_alias):
                got = reader.call(lambda: [c[a].get(k, None, abort=True) for k in ('p1', 'p2', 'c2', 'kz')])
                if got != want:
                    raise Violation('%s, p1, p2, c2 and kz of %s are %r, not %r' % (what, a, got, want))
        check('after the next request', ['q', 'p', 'c', 1])
        tag = ch.pick(['left', 't', 'b', 'c'])
        for a in (alias, other_alias):
            s.s[OTHER].call(lambda: c[a].invalidate_tags(tag))
        check('after invalidation of %s' % tag, {'b': ['q', None, None, 1], 'c': [None, 'p', 'c', 1]}.get(tag, ['q', 'p', 'c', 1]))
        return style, kind, failed[0], tag
    return run


def stream(alias):
    """What happens while the body is sent is outside of the transaction; the end of the request closes it."""
    def run(ch):
        plan.clear()
        style = ch.pick(['new', 'old', 'decorator'])
        s = Sys(ch, alias)
        s.do_set(OTHER, 'k1', ('t',))
        s.do_set(OTHER, 'k3', ('u', 'w'))
        view, name = view_of(ch, [a_invalidate, a_begin, a_open_build], 1, [('streams', streaming)])
        status, finish = s.request(style, view)
        s.probe()
        finish()
        if s.depth[0]:
            s.ended(0)
        s.probe()
        s.do_set(OTHER, 'k1', ('t', 'left'))
        s.do_set(OTHER, 'k3', ('u', 'w'))
        status, finish = s.request(style, second(s, ch))
        finish()
        s.probe()
        s.do_inv(OTHER, (ch.pick(['left', 'b', 'a', 'c']),))
        s.probe()
        return style, name
    return run


def harnesses(tier):
    deep = tier == 'thorough'
    styles = ['new', 'old', 'decorator']
    hs = []
    for alias in ('rc0', 'rr0'):
        hs.append(Harness('one request, %s' % alias, requests(styles, alias, ACTIONS, 3 if deep else 2, ENDS[:3] if not deep else ENDS),
                          about='views of up to %d actions and an end; then a request that must not notice' % (3 if deep else 2)))
        hs.append(Harness('ends, %s' % alias, requests(styles, alias, ACTIONS[:6], 1, ENDS), about='every way to end a view'))
        hs.append(Harness('two requests, %s' % alias, requests(styles, alias, ACTIONS[:4] + ACTIONS[5:6], 2 if deep else 1, ENDS[:2], 2),
                          about='two such requests'))
        hs.append(Harness('no middleware, %s' % alias, requests(['bare'], alias, ACTIONS, 2, ENDS[:2]),
                          about='requests without the middleware; what they left open ends with them'))
        hs.append(Harness('neighbours, %s' % alias, neighbours(['new', 'old'], alias), about='other middleware answers, fails or handles'))
        hs.append(Harness('failing backend, %s' % alias, failing(alias, styles + ['bare']), bound=1,
                          about='one failure of the cache server at any call of a request'))
        hs.append(Harness('streaming, %s' % alias, stream(alias), about='actions while the body is sent'))
    hs.append(Harness('one request, rc2', requests(['new', 'old'], 'rc2', ACTIONS[:7], 2, ENDS[:2]), about='with delay'))
    return hs
