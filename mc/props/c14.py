"""Template fragments: every template of a grammar, every invalidation between renderings."""
import re
from mc.sut import *
from mc import remote
from django.core import signals
from django.http import HttpResponse
from django.template import engines
from django.test import RequestFactory
from django.utils.safestring import mark_safe
from django_cache_dependencies.decorators import cache_page

ASSUMPTIONS = [
    'different fragments have different names',
    'a template included with "only" is isolated by definition and does not contain cache_add_tags or cache_tagging_prevent',
]

factory = RequestFactory()
compiled = {}

cleanup = remote.cleanup


def compile_(source):
    if source not in compiled:
        if len(compiled) > 5000:
            compiled.clear()
        compiled[source] = engines['django'].from_string('{% load cache_tagging_tags %}' + source)
    return compiled[source]


class Node(object):
    """kind: frag, add, prevent, or the name of a wrapper."""

    def __init__(self, kind, children=(), name=None, form=0):
        self.kind = kind
        self.children = list(children)
        self.name = name
        self.form = form

    def __repr__(self):
        label = self.kind if self.name is None else '%s:%s/%d' % (self.kind, self.name, self.form)
        return label if self.kind in ('add', 'prevent') else '%s[%s]' % (label, ' '.join(map(repr, self.children)))


WRAPPERS = ['with', 'if', 'for', 'names', 'include', 'block', 'filter']
LOOPS = ('for', 'names')


class Maker(object):
    """Chooses a template with at most `budget` nodes."""

    def __init__(self, ch, budget, wrapper, forms=(0,), add_forms=(0,), max_frags=3, prevent=True):
        self.ch = ch
        self.left = budget
        self.wrapper = wrapper
        self.frags = 0
        self.adds = 0
        self.forms = forms
        self.add_forms = add_forms
        self.max_frags = max_frags
        self.prevent = prevent

    def forest(self, in_frag, in_wrapper):
        """The children of a node: any number, the first choice is to stop."""
        out = []
        while True:
            options = ['stop'] if out or in_frag and not in_wrapper else []
            if self.left:
                if self.frags < self.max_frags:
                    options.append('frag')
                if in_frag:
                    options.append('add')
                    if self.prevent and not (out and out[-1].kind == 'prevent'):
                        options.append('prevent')
                # a wrapper takes at least one more node
                if self.wrapper and self.left > 1 and not (in_wrapper and len(out) == 0):
                    options.append('wrap')
            if not options:
                raise Prune()
            k = self.ch.pick(options)
            if k == 'stop':
                return out
            self.left -= 1
            if k == 'frag':
                name = 'abcdef'[self.frags]
                self.frags += 1
                form = self.ch.pick(self.forms)
                out.append(Node('frag', self.forest(True, False), name, form))
            elif k == 'add':
                self.adds += 1
                out.append(Node('add', (), 'x%d' % self.adds, self.ch.pick(self.add_forms)))
            elif k == 'prevent':
                out.append(Node('prevent'))
            else:
                out.append(Node(self.wrapper, self.forest(in_frag, True)))

    def make(self):
        return Node('root', self.forest(False, False))


class Template(object):
    """Source text, context and meaning of a tree."""

    def __init__(self, root, bare=False):
        self.root = root
        self.bare = bare            # no text of its own: a fragment can come out empty
        self.includes = {}
        self.tags = set()
        self.source = self.text(root.children, '')

    def text(self, nodes, suffix):
        return ''.join(self.node(n, suffix) for n in nodes)

    def node(self, n, suffix):
        k = n.kind
        if k == 'frag':
            t = 't' + n.name
            name = "'%s'" % n.name
            if suffix:
                name = "'%s'|concat:i" % n.name
            head = {
                0: "%s '%s'" % (name, t),
                1: "%s '%s' 's%s'" % (name, t, n.name),
                2: "%s v.%s timeout=500" % (name, t),
                3: "%s tags=v.l%s" % (name, n.name),
                4: "%s '%s' tags=v.l%s timeout=v.long" % (name, t, n.name),
                5: "%s '%s' tags=v.shared" % (name, t),
                6: "%s tags=v.tuple.%s" % (name, n.name),
                7: "%s tags=v.set.%s" % (name, n.name),
                8: "%s '%s' tags=v.frozen.%s" % (name, t, n.name),
            }[n.form]
            return "{%% cache_tagging %s %%}%s{{ e.%s }}%s%s%s{%% end_cache_tagging %%}" % (
                head, '' if self.bare else '<%s%s>' % (n.name, '{{ i }}' if suffix else ''), n.name,
                ''.join('{{ d.%s }}' % x for x in self.listed(n)), self.text(n.children, suffix), '' if self.bare else '</%s>' % n.name)
        if k == 'add':
            arg = {0: "'%s'" % n.name, 1: "'%s' 'y%s'" % (n.name, n.name), 2: 'v.%s' % n.name, 3: 'v.l%s' % n.name, 4: 'v.shared',
                   5: 'v.tuple.' + n.name, 6: 'v.set.' + n.name, 7: 'v.frozen.' + n.name, 8: 'v.safe.' + n.name}[n.form]
            return "{%% cache_add_tags %s %%}%s" % (arg, ''.join('{{ d.%s }}' % x for x in self.added(n)))
        if k == 'prevent':
            return '{% cache_tagging_prevent %}'
        if k == 'with':
            return '{%% with w=1 %%}%s{%% endwith %%}' % self.text(n.children, suffix)
        if k == 'if':
            return '{%% if v.yes %%}%s{%% endif %%}' % self.text(n.children, suffix)
        if k == 'for':
            return '{%% for j in v.two %%}%s{%% endfor %%}' % self.text(n.children, suffix)
        if k == 'names':
            return '{%% for i in v.two %%}%s{%% endfor %%}' % self.text(n.children, 'i')
        if k == 'filter':
            return '{%% filter cut:"~" %%}%s{%% endfilter %%}' % self.text(n.children, suffix)
        if k == 'include':
            name = 'inc%d' % len(self.includes)
            self.includes[name] = None
            self.includes[name] = compile_(self.text(n.children, suffix)).template
            return '{%% include v.%s %%}' % name
        if k == 'block':
            name = 'b%d' % len(self.includes)
            self.includes[name] = None
            return '{%% block %s %%}%s{%% endblock %%}' % (name, self.text(n.children, suffix))
        raise KeyError(k)

    def listed(self, n):
        t = 't' + n.name
        return {0: [t], 1: [t, 's' + n.name], 2: [t], 3: ['p' + n.name, 'q' + n.name], 4: [t, 'p' + n.name, 'q' + n.name], 5: [t, 'c1', 'c2'],
                6: ['p' + n.name, 'q' + n.name], 7: ['p' + n.name, 'q' + n.name], 8: [t, 'p' + n.name, 'q' + n.name]}[n.form]

    def added(self, n):
        return {0: [n.name], 1: [n.name, 'y' + n.name], 2: [n.name], 3: ['m' + n.name, 'n' + n.name], 4: ['c1', 'c2'],
                5: ['m' + n.name, 'n' + n.name], 6: ['m' + n.name, 'n' + n.name], 7: ['m' + n.name, 'n' + n.name], 8: [n.name]}[n.form]

    def all_tags(self):
        out = []

        def walk(n):
            if n.kind == 'frag':
                out.extend(self.listed(n))
            if n.kind == 'add':
                out.extend(self.added(n))
            for c in n.children:
                walk(c)
        walk(self.root)
        return out

    def values(self):
        v = {'yes': True, 'two': [0, 1], 'long': 700, 'shared': ['c1', 'c2']}
        for c in 'abcdef':
            v['t' + c] = 't' + c
            v['l' + c] = ['p' + c, 'q' + c]
        for i in range(1, 9):
            v['x%d' % i] = 'x%d' % i
            v['lx%d' % i] = ['mx%d' % i, 'nx%d' % i]
        for name, kind in (('tuple', tuple), ('set', set), ('frozen', frozenset)):
            v[name] = {k[1:]: kind(x) for k, x in v.items() if k[0] == 'l' and isinstance(x, list)}
        v['safe'] = {'x%d' % i: mark_safe('x%d' % i) for i in range(1, 9)}
        v.update(self.includes)
        return v


class Run(object):
    def __init__(self, ch, tpl, page, request):
        rt.fresh()
        self.ch = ch
        self.tpl = tpl
        self.data = {}
        self.stored = {}            # name -> tags
        self.page = None            # tags of the stored page
        self.compiled = compile_(tpl.source)
        self.with_request = request
        self.with_page = page
        self.view = cache_page(600, tags=())(self._view) if page else None

    def _view(self, request):
        self.viewed = True
        return HttpResponse(self.output(request))

    def output(self, request):
        run = self

        class Evaluations(object):
            def __getitem__(self, name):
                run.evaluated.append(name)
                return ''

        class Data(object):
            def __getitem__(self, tag):
                return run.show([tag])
        context = {'e': Evaluations(), 'd': Data(), 'v': self.tpl.values()}
        if self.with_request:
            context['request'] = request
        from django.template import Context
        return self.compiled.template.render(Context(context))

    def show(self, tags):
        """What the data of the tags look like; in a bare template every other state of them is empty."""
        return ''.join('' if self.tpl.bare and self.data.get(t, 0) % 2 == 0 else '%s=%d;' % (t, self.data.get(t, 0)) for t in tags)

    def render(self):
        self.evaluated = []
        self.viewed = False
        request = factory.get('/p/')
        if self.with_page:
            out = self.view(request).content.decode('utf8')
        else:
            out = self.output(request)
        signals.request_finished.send(sender=Run)
        for tag, n in re.findall(r'(\w+)=(\d+);', out):
            if int(n) != self.data.get(tag, 0):
                raise Violation('the output %r shows %s=%s, but %s was invalidated after that' % (out, tag, n, tag))
        # the model
        expect = []
        self.prevented_page = False
        full = []
        if self.page is not None:
            if self.viewed:
                raise Violation('the page is unaffected, but was rendered again')
        else:
            tags, prevented, text = self.meaning(self.tpl.root.children, '', expect)
            if self.with_page:
                if not self.viewed:
                    raise Violation('the page was served from the cache although %s' % (
                        'it contains cache_tagging_prevent' if self.has_prevent() else 'its tags were invalidated'))
                self.page = None if prevented else tags
            if out != text:
                raise Violation('rendered %r instead of %r' % (out, text))
        if self.evaluated != expect:
            raise Violation('fragments evaluated: %s; expected: %s (stored and valid before: %s)' % (
                self.evaluated, expect, sorted(self.stored)))
        self.ch.note('rendered %r, evaluated %s, stored now %s' % (out, expect, {k: sorted(v) for k, v in self.stored.items()}))

    def has_prevent(self):
        return 'prevent' in repr(self.tpl.root)

    def meaning(self, nodes, suffix, expect):
        tags, prevented, text = set(), False, ''
        for n in nodes:
            if n.kind == 'frag':
                name = n.name + suffix
                text_, tags_, p = self.fragment(n, name, suffix, expect)
                text += text_
                tags |= tags_
                prevented = prevented or p
            elif n.kind == 'add':
                tags |= set(self.tpl.added(n))
                text += self.show(self.tpl.added(n))
            elif n.kind == 'prevent':
                prevented = True
            else:
                for i in range(2 if n.kind in LOOPS else 1):
                    t, p, x = self.meaning(n.children, str(i) if n.kind == 'names' else suffix, expect)
                    tags |= t
                    prevented = prevented or p
                    text += x
        return tags, prevented, text

    def fragment(self, n, name, suffix, expect):
        if name in self.stored:
            return self.texts[name], self.stored[name], False
        expect.append(n.name)
        tags, prevented, inner = self.meaning(n.children, suffix, expect)
        listed = self.tpl.listed(n)
        tags |= set(listed)
        text = self.show(listed) + inner
        if not self.tpl.bare:
            text = '<%s%s>%s</%s>' % (n.name, suffix, text, n.name)
        if not prevented:
            self.stored[name] = tags
            self.texts[name] = text
        return text, tags, prevented

    texts = None

    def invalidate(self, tag):
        self.ch.note('invalidate %s' % tag)
        self.data[tag] = self.data.get(tag, 0) + 1
        remote.invalidator(dcd.caches['default'], 'default').invalidate_tags(tag)
        signals.request_finished.send(sender=Run)
        for name in list(self.stored):
            if tag in self.stored[name]:
                del self.stored[name]
        if self.page is not None and tag in self.page:
            self.page = None

    def delete(self, name):
        self.ch.note('evict %s' % name)
        dcd.caches['default'].delete(name)
        self.stored.pop(name, None)


def templates(budget, wrapper, rounds, page=False, request=True, forms=(0,), add_forms=(0,), max_frags=3, prevent=True, evict=False, bare=False):
    def run(ch):
        m = Maker(ch, budget, wrapper, forms, add_forms, max_frags, prevent)
        root = m.make()
        tpl = Template(root, bare)
        ch.note(repr(root))
        ch.note(tpl.source)
        r = Run(ch, tpl, page, request)
        r.texts = {}
        tags = sorted(set(tpl.all_tags()))
        r.render()
        r.render()
        for i in range(rounds):
            names = sorted(r.stored) if evict else []
            k = ch.choose(len(tags) + len(names))
            if k < len(tags):
                r.invalidate(tags[k])
            else:
                r.delete(names[k - len(tags)])
            r.render()
        r.render()
        return repr(sorted((k, sorted(v)) for k, v in r.stored.items()))[:300]
    return in_thread(run)


def in_thread(body):
    def run(ch):
        s = rt.Session()
        try:
            return s.call(lambda: body(ch))
        finally:
            s.stop()
    return run


ODD = ["{% cache_tagging n t timeout=1000 %}{{ v }}{% end_cache_tagging %}", "{% cache_tagging n tags=l timeout=1000 %}{{ v }}{% end_cache_tagging %}",
       "{% cache_tagging n timeout=1000 %}{{ v }}{% cache_add_tags t %}{% end_cache_tagging %}",
       "{% cache_tagging n 'x' timeout=1000 %}{{ v }}{% cache_add_tags l %}{% end_cache_tagging %}"]


def odd_names(ch):
    """Fragments whose names and tags differ only just."""
    rt.fresh()
    form = ch.choose(len(ODD))
    i, j = ch.choose(len(NAMES)), ch.choose(len(NAMES))
    if i == j:
        raise Prune()
    names = [k if isinstance(k, type(u'')) else 'number %r' % (k,) for k in (NAMES[i], NAMES[j])]
    c = dcd.caches['default']

    def show(k, v, want):
        t = NAMES[(i, j)[k]]
        out = compile_(ODD[form]).render({'n': names[k], 't': t, 'l': [t], 'v': v}, None)
        if out != want:
            raise Violation('fragment %r with tag %r shows %r instead of %r' % (names[k], t, out, want))
    try:
        show(0, 'a1', 'a1')
        show(1, 'b1', 'b1')
        show(0, 'a2', 'a1')
        show(1, 'b2', 'b1')
        c.invalidate_tags(NAMES[j])
        show(0, 'a3', 'a1')
        show(1, 'b3', 'b3')
        c.invalidate_tags(NAMES[i])
        show(0, 'a4', 'a4')
        show(1, 'b4', 'b3')
    finally:
        c.close()
    return form


PARTS = {
    'b': "{% cache_tagging 'b' 'tb' timeout=1000 %}{% if sb %}{% cache_tagging_prevent %}{% endif %}b{% cache_add_tags 'ub' %}{% end_cache_tagging %}",
    'a': "{% cache_tagging 'a' 'ta' timeout=1000 %}{% if sa %}{% cache_tagging_prevent %}{% endif %}a{% cache_add_tags 'ua' %}{% end_cache_tagging %}",
}
PARTS['o'] = "{%% cache_tagging 'o' 'to' timeout=1000 %%}%s{%% if so %%}{%% cache_tagging_prevent %%}{%% endif %%}o{%% end_cache_tagging %%}" % PARTS['b']
PARTS['ab'] = PARTS['a'] + PARTS['b']
PARTS['q'] = "{%% cache_tagging 'q' 'tq' timeout=1000 %%}%s{%% end_cache_tagging %%}" % PARTS['ab']


def one_request(depth):
    """Renderings one after the other, without the end of a request between them; prevention comes and goes."""
    def run(ch):
        rt.fresh()
        c = dcd.caches['default']
        store = {}

        def part(k, stops):
            """-> is caching prevented, tags"""
            if k in store:
                return False, store[k]
            if k == 'o':
                prevented, tags = part('b', stops)
                prevented = 'o' in stops or prevented
            elif k == 'q':
                results = [part('a', stops), part('b', stops)]
                prevented, tags = any(r[0] for r in results), results[0][1] | results[1][1]
            else:
                prevented, tags = k in stops, frozenset(['u' + k])
            tags = tags | {'t' + k}
            if not prevented:
                store[k] = tags
            return prevented, tags
        try:
            for i in range(depth):
                name = ch.pick(sorted(PARTS))
                stops = ch.pick(['', 'a', 'b', 'ab', 'o'] if i < depth - 1 else ['', 'b'])
                if set(stops) - set({'o': 'ob', 'q': 'ab'}.get(name, name)):
                    raise Prune()
                ch.note('render %s, prevented: %r' % (name, stops))
                compile_(PARTS[name]).render({'s' + x: x in stops for x in 'abo'}, None)
                for k in name if name == 'ab' else [name]:
                    part(k, stops)
            if not ch.fresh():
                return None
            before = {k: dict(v) for k, v in rt.world.stores.items()}
            for tag in [None, 'ta', 'ua', 'tb', 'ub', 'to', 'tq']:
                for k, v in before.items():
                    rt.world.stores[k] = dict(v)
                if tag:
                    c.invalidate_tags(tag)
                got = sorted(k for k in ('a', 'b', 'o', 'q') if c.get(k, None, abort=True) is not None)
                want = sorted(k for k in store if tag not in store[k])
                if got != want:
                    raise Violation('after the invalidation of %r the fragments %s are stored instead of %s' % (tag, got, want))
            return repr(sorted(store))
        finally:
            c.close()
    return in_thread(run)


def harnesses(tier):
    deep = tier == 'thorough'
    d = 1 if deep else 0
    remote.start(1)
    out = [
        Harness('invalidations elsewhere', remote.invalidating(templates(4 + d, None, 2)), about='invalidations by another program'),
        Harness('plain', templates(5 + d, None, 2), about='nested fragments, additions and preventions'),
        Harness('plain, page', templates(5 + d, None, 1, page=True), about='the same on a cached page'),
        Harness('plain, no request', templates(4, None, 1, request=False), about='the same without a request in the context'),
        Harness('plain, evictions', templates(3 + d, None, 2, evict=True), about='with evictions of stored fragments'),
        Harness('one request', one_request(3 + d), about='renderings without the end of a request in between'),
        Harness('odd names', odd_names, about='all pairs of fragment names and tags that differ only just'),
        Harness('empty', templates(3 + d, None, 3, bare=True), about='fragments that come out empty at times'),
        Harness('empty, page', templates(3 + d, None, 2, bare=True, page=True), about='fragments that come out empty at times, on a page'),
        Harness('empty, in with', templates(4, 'with', 2, bare=True), about='fragments that come out empty at times'),
        Harness('without prevention', templates(5 + d, None, 2, prevent=False), about='larger templates without prevention'),
        Harness('forms', templates(2 + d, None, 1, forms=(0, 1, 2, 3, 4), add_forms=(0, 1, 2, 3)), about='each way to write tags'),
        Harness('collections', templates(2 + d, None, 1, forms=(6, 7, 8), add_forms=(5, 6, 7, 8)), about='tags in tuples and sets'),
        Harness('shared list', templates(4 + d, None, 1, forms=(5,), add_forms=(0, 4), prevent=False), about='several fragments given one list of tags'),
        Harness('forms, nested', templates(3, None, 1, forms=(0, 3, 4), add_forms=(1, 3), prevent=False), about='each way to write tags'),
    ]
    for w in WRAPPERS:
        out.append(Harness('in %s' % w, templates(5 + d if deep or w in ('with', 'names') else 4, w, 1), about='parts of the template inside %s' % w))
        out.append(Harness('in %s, page' % w, templates(4 + d, w, 1, page=True), about='parts of the template inside %s' % w))
    return out
