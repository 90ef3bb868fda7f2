"""C30: the scope of a definition ends where the construct that bounds it ends."""
import query
import rules
import steps
import terms as tm
from bdd import TRUE, FALSE
from props import c10
from query import Node as N

RULE = ('For nestings of constructs the syntax query text decides which captures they make; the transfer functions of '
        'the extractor of definitions (taken from the MIR) are composed along these captures, and the loops behind its '
        'loop over captures (which assign the ends of scopes) are composed over the lists it recorded.  The end '
        'of the scope of every identifier that comes out must be the start of the end tag of the construct that bounds '
        'it - for the names a for, with or block tag and the parameters a macro tag introduces: the end tag of that '
        'construct; for set variables and macro names: that of the innermost for, with, macro, block, filter or '
        'autoescape around it - and the end of the document for names no construct bounds.')


class Doc(object):
    """a template being put together, with where each name's scope ends"""

    def __init__(self):
        self.tags = []
        self.open = []           # bounding constructs around: lists of names
        self.want = []           # [name, kind, end]
        self.n = 0

    def tag(self, *toks):
        t = c10.stmt(*toks)
        self.tags.append(t)
        return t

    def name(self, base):
        self.n += 1
        return '$%s%d' % (base, self.n)

    def define(self, name, kind, own=None):
        w = [name, kind, None]
        self.want.append(w)
        if own is not None:
            own.append(w)
        elif self.open:
            self.open[-1].append(w)


kw, ident, op, strg = c10.kw, c10.ident, c10.op, c10.strg


def bounding(head):
    """a construct that bounds scopes: head writes its first tag and says which names are its own"""
    def f(d, body, kind):
        own = []
        head(d, own)
        d.open.append(own)
        body(d)
        d.open.pop()
        end = d.tag(kw('end' + kind))
        for w in own:
            w[2] = end
    return f


def h_for(d, own):
    k, v = d.name('k'), d.name('v')
    d.tag(kw('for'), ident(k), op(', '), ident(v), kw('in'), ident('$items'))
    d.define(k, 'ForLoopKey', own)
    d.define(v, 'ForLoopValue', own)


def h_for_if(d, own):
    k = d.name('k')
    d.tag(kw('for'), ident(k), kw('in'), ident('$items'), kw('if'), ident('$c'))
    d.define(k, 'ForLoopKey', own)


def h_with(d, own):
    a, b = d.name('a'), d.name('b')
    d.tag(kw('with'), ident(a), op(' = '), strg('$s'), op(', '), ident(b), op(' = '), strg('$t'))
    d.define(a, 'WithVariable', own)
    d.define(b, 'WithVariable', own)


def h_macro(d, own):
    m, p, q = d.name('m'), d.name('p'), d.name('q')
    d.tag(kw('macro'), ident(m), op('('), ident(p), op(', '), ident(q), op(')'))
    d.define(m, 'MacroName')
    d.define(p, 'MacroParameter', own)
    d.define(q, 'MacroParameter', own)


def h_block(d, own):
    b = d.name('b')
    d.tag(kw('block'), ident(b))
    d.define(b, 'TemplateBlock', own)


def h_filter(d, own):
    d.tag(kw('filter'), ident('$f'), op('('), ident('$y'), op(')'))


def h_autoescape(d, own):
    d.tag(kw('autoescape'), ident('$y'))


def c_set(d, body=None):
    x = d.name('x')
    d.tag(kw('set'), ident(x), op(' = '), ident('$y'))
    d.define(x, 'SetVariable')


def c_set_inline(d, body=None):
    x = d.name('x')
    d.tag(kw('set'), ident(x), op(' = '), ident('$y'), kw('if'), ident('$c'), kw('else'), ident('$z'))
    d.define(x, 'SetVariable')


def c_set_block(d, body=None):
    x = d.name('x')
    d.tag(kw('set'), ident(x))
    d.define(x, 'SetVariable')
    d.tag(kw('endset'))


def c_if(d, body):
    d.tag(kw('if'), ident('$c'), kw('in'), ident('$d'))
    body(d)
    d.tag(kw('endif'))


def c_if_else(d, body):
    d.tag(kw('if'), ident('$c'))
    body(d)
    d.tag(kw('elif'), ident('$d'))
    d.tag(kw('else'))
    body(d)
    d.tag(kw('endif'))


def c_for_else(d, body):
    own = []
    h_for(d, own)
    d.open.append(own)
    body(d)
    d.tag(kw('else'))
    body(d)
    d.open.pop()
    end = d.tag(kw('endfor'))
    for w in own:
        w[2] = end


def c_call(d, body):
    d.tag(kw('call'), ident('$m'), op('('), ident('$y'), op(')'))
    d.tag(kw('endcall'))


def c_raw(d, body):
    d.tag(kw('raw'))
    d.tag(kw('endraw'))


def c_block_named(d, body):
    own = []
    b = d.name('b')
    d.tag(kw('block'), ident(b), ident('scoped'))
    d.define(b, 'TemplateBlock', own)
    d.open.append(own)
    body(d)
    d.open.pop()
    end = d.tag(kw('endblock'), ident('$b'))
    for w in own:
        w[2] = end


def c_expr(d, body):
    d.tags.append(N('expression', N('expression_begin', text='{{'), N('identifier', text='$e'), N('operator', text=' if '), N('identifier', text='$c'),
                    N('expression_end', text='}}')))


def c_include(d, body):
    d.tag(kw('include'), strg('$t'), kw('with'), ident('context'))


def wrap(kind, head):
    g = bounding(head)
    return lambda d, body: g(d, body, kind)


# every construct: what may be inside it bounds scopes or not
CONSTRUCTS = [
    ('for', wrap('for', h_for)), ('for-if', wrap('for', h_for_if)), ('for-else', c_for_else), ('with', wrap('with', h_with)), ('macro', wrap('macro', h_macro)),
    ('block', wrap('block', h_block)), ('filter', wrap('filter', h_filter)), ('autoescape', wrap('autoescape', h_autoescape)),
    ('block-named', c_block_named), ('if', c_if), ('if-else', c_if_else),
]
LEAVES = [('set', c_set), ('set-inline', c_set_inline), ('set-block', c_set_block), ('call', c_call), ('expression', c_expr), ('include', c_include), ('raw', c_raw)]


def nothing(d):
    pass


def shapes():
    for n, f in CONSTRUCTS + LEAVES:
        yield n, lambda d, f=f: (f(d, nothing), c_set(d))
    for n, f in CONSTRUCTS:
        # names before, inside and after a construct, itself inside another one
        for n2, g in CONSTRUCTS + LEAVES:
            yield '%s-in-%s' % (n2, n), lambda d, f=f, g=g: (c_set(d), f(d, lambda d: (c_set(d), g(d, c_set), c_set(d))), c_set(d))
            if (n2, g) in CONSTRUCTS:
                yield '%s-after-%s' % (n2, n), lambda d, f=f, g=g: (f(d, c_set), g(d, c_set))
    inner = dict(CONSTRUCTS)
    for a, b, c in (('for', 'with', 'macro'), ('macro', 'for', 'if'), ('block', 'if-else', 'for-else'), ('with', 'filter', 'for'), ('block', 'macro', 'with'), ('autoescape', 'block', 'for')):
        yield '%s-in-%s-in-%s' % (c, b, a), lambda d, f=inner[a], g=inner[b], h=inner[c]: (
            f(d, lambda d: (g(d, lambda d: (h(d, c_set), c_set(d), h(d, nothing), c_set(d))), c_set(d))), c_set(d))


def where(doc, case, t):
    """which end a position is"""
    if t.k == 'call' and str(t.a[0]).endswith('Node::end_position') and t.a[1].k == 'call' and str(t.a[1].a[0]).endswith('Tree::root_node'):
        return 'document'
    if t.k == 'call' and str(t.a[0]).endswith('Node::start_position') and t.a[1].k == 'sym':
        for i, tag in enumerate(doc.tags):
            if t.a[1] is tm.sym('node:' + case.names[id(tag)]) or t.a[1] is tm.sym('node:' + case.names[id(tag.children[0])]):
                return i
    return None


def shown(doc, e):
    if not isinstance(e, int):
        return 'the end of the document' if e == 'document' else str(e)
    return 'tag %d ({%% %s %%})' % (e, doc.tags[e].children[1].text)


def decide(k, S, x, text, els, fld, on, key, build):
    doc = Doc()
    build(doc)
    case = c10.Case(doc.tags)
    want = [(n, ty, 'document' if e is None else doc.tags.index(e)) for n, ty, e in doc.want]
    src = ' '.join('{%% %s %%}' % ' '.join(c.text.strip() for c in t.children[1:-1]).replace('$', '') if t.kind == 'statement' else '{{ e if c }}' for t in doc.tags)
    what = 'scopes in %s end with what bounds them' % src
    try:
        st = x.run(query.Query(text).matches(case.root), case.names)
    except (query.Bad, steps.Stopped) as e:
        k.ob(key, False, what, x.key, str(e))
        return 0
    got = c10.collected(S, els, fld, x.result(fld, st), c10.named(on))
    if got is None:
        k.ob(key, False, what, x.key, 'the recorded list is not known')
        return 0
    out = []
    for r in got:
        nm, ty, own, sure = c10.found(case, r)
        e = tm.field(rules.sel(r[1], ('Identifier', 'scope_ends')), '()', 0, 1)
        w = where(doc, case, e)
        out.append((nm, ty, w if w is not None and sure else rules.flat(e, 120)))
    bad = ['%s %s until %s, not %s' % (a[1], a[0][1:], shown(doc, a[2]), shown(doc, b[2])) for a, b in zip(out, want) if a != b and a[:2] == b[:2]]
    if out != want and not bad:
        bad = ['found %s' % [o[:2] for o in out]]
    k.ob(key, out == want, what, x.key, '; '.join(bad))
    return len(want)


def check(k):
    S = k.server()
    called = c10.calls(S)
    n = m = 0
    for key, f, el, on in c10.recorded(S, 'html'):
        qs = c10.given(S, called.get(key, ()))
        if 'jinja2' not in qs:
            continue
        try:
            x = steps.Extractor(S.prog, key)
        except steps.Missing as e:
            k.ob('extractor:' + key, False, 'the extractor can be analysed', key, str(e))
            continue
        for t in sorted(qs['jinja2']):
            for name, build in shapes():
                n += 1
                m += decide(k, S, x, t, el, f, on, name, build)
    k.floor('nestings', n, 150)
    k.floor('scopes decided', m, 600)
