"""Uncached islands: every text of a set of pieces, every data value, every secret."""
import datetime
import decimal
import base64
import pickle
from mc.sut import *
from django.template import Context, engines
from django.utils.safestring import SafeText, mark_safe
from cache_dependencies.nocache import NoCache

ASSUMPTIONS = [
    'blank lines, trailing spaces and the common indentation of the code of an island are not significant',
    'the code does not contain the end marker literally (nocache.end() prints one)',
]

executed = []


def boom(*args):
    executed.append(args)
    return 'boom'


class Bomb(object):
    """Shows that it was unpickled."""
    def __reduce__(self):
        return boom, ('unpickled',)


BOMB = base64.standard_b64encode(pickle.dumps({'x': Bomb()}, 2)).decode('ascii')
EMPTY = base64.standard_b64encode(pickle.dumps({}, 2)).decode('ascii')


def call_data(h, n):
    return {'y': n, 'z': 'call', 'nocache': h, 'items': [3, 1, 2], 'low': 1, 'boom': boom}


# islands: name -> (data at the start marker, code, what it prints given the data of the call)
def islands(h):
    def nested(n):
        return h.start(x=n) + 'echo(x)' + h.end()
    wrong = h.start(x=1).replace(h.secret, h.secret[:-1] + ('0' if h.secret[-1] != '0' else '1')) + 'boom(1)' + h.end()
    return [
        ('constant', {}, 'echo("v")', lambda d: 'v'),
        ('start data', {'x': 5}, 'echo(x)', lambda d: '5'),
        ('call data', {}, 'echo(y)', lambda d: str(d['y'])),
        ('both', {'z': 'start', 'x': 7}, 'echo(z, x, y)', lambda d: 'start7%s' % d['y']),
        ('lines', {'x': [1, 2]}, '\n    for i in x:\n        echo(i)\n\n        if i == 2:\n            echo("two")   \n    else:\n        echo("end")\n',
         lambda d: '12twoend'),
        ('produces', {}, 'echo("<", nocache.start(x=y + 1), "echo(x)", nocache.end(), ">")', lambda d: '<%s>' % (d['y'] + 1)),
        ('produces two', {'x': 2}, 'echo(nocache.start(a=x), "echo(a)", nocache.end(), nocache.start(), "echo(y)", nocache.end())',
         lambda d: '2%s' % d['y']),
        ('produces deep', {'x': 2},
         'echo(nocache.start(a=x), "echo(nocache.start(b=a), chr(101) + \'cho(b, y)\', nocache.end())", nocache.end(), "~")',
         lambda d: '2%s~' % d['y']),
        ('silent', {}, 'pass', lambda d: ''),
        ('comment', {}, '# nothing', lambda d: ''),
        ('spaces', {}, ' \n  ', lambda d: ''),
        ('empty', {}, '', lambda d: ''),
        ('comprehension', {'up': 3}, 'echo(",".join(str(i) for i in items if low < i <= up))', lambda d: '3,2'),
        ('function', {'k': 2}, 'def f(n):\n    return f(n - 1) + k if n else 0\necho(f(3))', lambda d: '6'),
        ('backslashes', {}, r'echo("\\1\\g<0>\\n")', lambda d: '\\1\\g<0>\\n'),
        ('assigns', {}, 'w = 1\ny = w\necho(w)', lambda d: '1'),
        ('sees assignment', {}, 'try:\n    echo(w)\nexcept NameError:\n    echo("no w", y)', lambda d: 'no w%s' % d['y']),
        ('kinds', {}, 'echo(1, None, "\u00e9", 1.5, [])', lambda d: '1None\u00e91.5[]'),
        ('prints wrong marker', {'t': wrong}, 'echo(t)', lambda d: wrong),
        ('prints end marker', {}, 'echo(nocache.end())', lambda d: h.end()),
        ('carriage', {}, 'echo(1)\r\necho(2)\r\n', lambda d: '12'),
        ('changes its data', {'v': [1], 'u': {'k': [0]}}, 'v.append(2)\nu["k"].append(v)\necho(v, u["k"])', lambda d: '[1, 2][0, [1, 2]]'),
        ('semicolon', {}, 'echo(1); echo("a>b</b>")', lambda d: '1a>b</b>'),
    ]


def outside(h):
    return ['x', '\n', ' <b class="q">\u00e9</b> ', '</nocache:py>', h.end(), '<%s>' % h.tag_name, '\\1\\n', '{{ a }}{0}%s',
            '<%s secret="" data="%s">boom(1)%s' % (h.tag_name, BOMB, h.end()),
            '<%s data="%s">boom(1)%s' % (h.tag_name, BOMB, h.end()),
            '<%s secret="%s" data="%s">' % (h.tag_name, h.secret[1:], BOMB),
            '"', h.secret]


def check(h, pieces, data):
    """pieces: (text, expected)"""
    del executed[:]
    text = ''.join(p[0] for p in pieces)
    want = ''.join(p[1] for p in pieces)
    got = h.handle(text, **data)
    if executed:
        raise Violation('text without the secret was executed: %r in %r' % (executed, text))
    if got != want:
        raise Violation('%r\nbecame %r\ninstead of %r' % (text, got, want))
    return want


def texts(n, secret, tag, names=None, outs=None):
    def run(ch):
        h = NoCache(secret, tag) if tag else NoCache(secret)
        isl = [i for i in islands(h) if names is None or i[0] in names]
        out = outside(h) if outs is None else [outside(h)[i] for i in outs]
        data = call_data(h, 4)
        pieces = []
        for i in range(n):
            k = ch.choose(len(isl) + len(out) + (1 if i else 0))
            if k < len(isl):
                name, start, code, prints = isl[k]
                ch.note('island %s' % name)
                pieces.append((h.start(**start) + code + h.end(), prints(data)))
            elif k < len(isl) + len(out):
                ch.note('text %r' % out[k - len(isl)])
                pieces.append((out[k - len(isl)],) * 2)
            else:
                break
        check(h, pieces, data)
        # again, with other data of the call
        data2 = call_data(h, 9)
        again = []
        for text, want in pieces:
            again.append((text, want))
        del executed[:]
        got = h.handle(''.join(p[0] for p in pieces), **data2)
        if executed:
            raise Violation('text without the secret was executed: %r' % (executed,))
        return got[:200]
    return run


def rerun(secret):
    """The same text twice with different data: nothing of the first time is left."""
    def run(ch):
        h = NoCache(secret)
        isl = islands(h)
        a, b = ch.choose(len(isl)), ch.choose(len(isl))
        text = 'a' + h.start(**isl[a][1]) + isl[a][2] + h.end() + 'b' + h.start(**isl[b][1]) + isl[b][2] + h.end() + 'c'
        for n in (4, 5, 4):
            data = call_data(h, n)
            want = 'a' + isl[a][3](data) + 'b' + isl[b][3](data) + 'c'
            got = h.handle(text, **data)
            if got != want:
                raise Violation('%r with y=%d became %r instead of %r' % (text, n, got, want))
            left = call_data(h, n)
            if set(data) != set(left):
                raise Violation('the data of the caller were changed')
        return a, b
    return run


ATOMS = [None, True, 0, -1, 2 ** 70, 1.5, '', 'a', 'a"b', "it's", '\n', '\r\n x', '\u00e9\u2028\U0001f600', '"> <b>', '</nocache:py>', '\\', '\x00',
         b'', b'\xff\x00"', datetime.datetime(2020, 2, 29, 1, 2, 3), datetime.timedelta(1), decimal.Decimal('1.10'),
         SafeText('<i>'), frozenset([1]), 'x' * 5000, ValueError, len]
BUILD = [lambda a: [a], lambda a: (a,), lambda a: {'k': a}, lambda a: {'k': [a, (a,)]}, lambda a: [a, a], lambda a: [[], a]]


def same(a, b):
    if type(a) is not type(b) or a != b:
        return False
    if isinstance(a, (list, tuple)):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return all(same(a[k], b[k]) for k in a)
    return True


def values(ch):
    """Every value arrives unchanged, under every name, next to every other."""
    h = NoCache('s' * 32)
    i = ch.choose(len(ATOMS))
    v = ATOMS[i]
    for level in range(2):
        k = ch.choose(len(BUILD) + 1)
        if k == len(BUILD):
            break
        v = BUILD[k](v)
    name = ch.pick(['v', 'data', 'tpl2', 'match', 'result', 'code'])
    got = []
    marker = h.start(**{name: v, 'other': 1})
    if '"' in marker.split('data="')[1][:-2] or '>' in marker[1:-1]:
        raise Violation('the start marker breaks its own quoting: %r' % marker)
    out = h.handle('a' + marker + 'take(%s, other)' % name + h.end() + 'b', take=lambda *a: got.append(a), v='of the call')
    if out != 'ab' or len(got) != 1 or got[0][1] != 1 or not same(got[0][0], v):
        raise Violation('%s=%r arrived as %r' % (name, v, got))
    back = h.unpickle(h.pickle(v))
    if not same(back, v):
        raise Violation('%r became %r' % (v, back))
    return i


SECRETS = ['0123456789abcdef', 'a.c', 'a+c', '(x', 'a|b', '$', '^a', '[z]', 'a\\d', '{0}', '{', '%s', 'a b', '\u00e9', 'a*', '?']


def secrets(ch):
    """Whatever the secret, exactly the text with it is executed."""
    secret = ch.pick(SECRETS)
    tag = ch.pick(['nocache:py', 'x.y', 'n'])
    h = NoCache(secret, tag)
    others = ['abc', 'aac', 'aaac', 'x', 'b', 'a', '', 'az', 'z', 'a1', '0', 'ac', '}', secret + secret, secret[:-1], 'x' + secret, secret.upper() + '_']
    other = ch.pick([o for o in others if o != secret])
    marker = h.start(x=3)
    foreign = '<%s secret="%s" data="%s">boom(1)</%s>' % (tag, other, BOMB, tag)
    foreign_tag = '<%s secret="%s" data="%s">boom(1)</%s>' % (tag.replace('.', '-').replace('n', 'm'), secret, BOMB, tag)
    order = ch.choose(4)
    real = marker + 'echo(x)' + h.end()
    pieces = {0: [(foreign, foreign), (real, '3')], 1: [(real, '3'), (foreign, foreign)], 2: [(real, '3'), (foreign, foreign), (real, '3')],
              3: [(foreign_tag, foreign_tag), (real, '3')]}[order]
    check(h, pieces, {'boom': boom})
    return secret, order


# ------------------------------------------------------------------------------------------------ in templates

T_PIECES = [
    ("{{ now }}", 'now', None),
    ("{% nocache %}echo(y){% endnocache %}", 'y', None),
    ("{% nocache v=now %}echo(v, '/', y){% endnocache %}", 'v/y', None),
    ("{% nocache %}\n   if y > 1:\n       echo('big')\n   else:\n       echo('small')\n{% endnocache %}", 'size', None),
    ("{% nocache %}echo(filters.escape('<'), filters.upper(u)){% endnocache %}", 'filters', None),
    ("\u00e9 <b>&amp;</b>\n", 'text', None),
]


def templates(depth, n):
    """Cached template fragments: the text is kept, the islands are fresh on every rendering, also inside an inner fragment."""
    def run(ch):
        rt.fresh()
        outer, inner = [], []
        for where in (outer, inner):
            for i in range(n):
                k = ch.choose(len(T_PIECES) + 1)
                if k == len(T_PIECES):
                    break
                where.append(T_PIECES[k])
        at = ch.choose(2)
        body = ''.join(p[0] for p in outer)
        middle = "{% cache_tagging 'in' 'ti' %}[" + ''.join(p[0] for p in inner) + "]{% end_cache_tagging %}" if inner else ''
        source = "{% load cache_tagging_tags %}{% cache_tagging 'out' 'to' nocache=1 %}(" + (middle + body if at else body + middle) + "){% end_cache_tagging %}"
        ch.note(source)
        t = engines['django'].from_string(source).template
        stored = {}

        def text(pieces, now, y):
            out = ''
            for _, kind, _ in pieces:
                out += {'now': 'n%d' % now, 'y': str(y), 'v/y': 'n%d/%d' % (now, y), 'size': 'big' if y > 1 else 'small',
                        'filters': '&lt;UU', 'text': '\u00e9 <b>&amp;</b>\n'}[kind]
            return out
        for step in range(depth):
            op = ch.choose(3 if inner else 2) if step else 0        # render again, invalidate the outer, invalidate both
            if op:
                dcd.cache.invalidate_tags('to' if op == 1 else 'ti')
                if op == 2:
                    stored.pop('in', None)
                stored.pop('out', None)
            y = step
            if 'out' not in stored:
                if 'in' not in stored:
                    stored['in'] = step
                stored['out'] = (step, stored['in'])
            o, i = stored['out']
            want_in = '[' + text(inner, i, y) + ']' if inner else ''
            want = '(' + (want_in + text(outer, o, y) if at else text(outer, o, y) + want_in) + ')'
            context = Context({'now': 'n%d' % step, 'y': y, 'u': 'uu'})
            got = t.render(context)
            dcd.caches['default'].close()
            ch.note('y=%d: %r' % (y, got))
            if got != want:
                raise Violation('rendering %d gave %r instead of %r' % (step + 1, got, want))
        return want
    return run


def harnesses(tier):
    deep = tier == 'thorough'
    S = '0123456789abcdef'
    few = ['constant', 'both', 'lines', 'produces', 'produces deep', 'silent', 'empty', 'prints wrong marker', 'prints end marker', 'assigns', 'sees assignment', 'changes its data']
    return [
        Harness('texts', texts(3 if not deep else 4, S, None), about='all sequences of pieces'),
        Harness('longer texts', texts(4 if not deep else 5, S, None, few, [0, 1, 4, 8, 10]), about='longer sequences of fewer pieces'),
        Harness('another marker', texts(2, 'secret', 'x:island'), about='another tag name'),
        Harness('rerun', rerun(S), about='every pair of islands three times'),
        Harness('values', values, about='every value in every container'),
        Harness('secrets', secrets, about='secrets and near misses'),
        Harness('templates', templates(3, 2), about='fragments with islands'),
    ]
