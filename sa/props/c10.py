"""C10: every construct is recognised as the kind of definition it is."""
import facts
import query
import rules
import steps
import terms as tm
from bdd import TRUE, FALSE
from props import c07, c19
from query import Node as N

RULE = ('The texts of the syntax queries that flow into each extractor are parsed.  Every capture name an extractor '
        'tells apart must be made by a query it is given.  For the shape of every construct the query text decides which '
        'captures it makes; the transfer functions of the extractor (what its loop over captures does to its state, '
        'taken from the MIR) are composed along these captures, also after another construct, and the recorded list is '
        'put through the collecting code.  The identifiers that come out must be the expected names with the '
        'expected kinds, in order, each with the range of its own node.')


def src(*parts):
    n = 0
    root = N('source_file', *parts)
    return root


def stmt(*toks):
    return N('statement', N('statement_begin', text='{%'), *[N(k, text=t) for k, t in toks] + [N('statement_end', text='%}')])


def kw(t):
    return ('keyword', t)


def ident(t):
    return ('identifier', t)


def op(t):
    return ('operator', t)


def strg(t):
    return ('string', t)


DEFS = [
    ('for', 'for with one name', [stmt(kw('for'), ident('$k'), kw('in'), ident('$items')), stmt(kw('endfor'))], [('$k', 'ForLoopKey')]),
    ('for-value', 'for with two names', [stmt(kw('for'), ident('$k'), op(', '), ident('$v'), kw('in'), ident('$items')), stmt(kw('endfor'))],
     [('$k', 'ForLoopKey'), ('$v', 'ForLoopValue')]),
    ('set', 'set', [stmt(kw('set'), ident('$x'), op(' = '), ident('$y'))], [('$x', 'SetVariable')]),
    ('set-block', 'block set', [stmt(kw('set'), ident('$x')), stmt(kw('endset'))], [('$x', 'SetVariable')]),
    ('with', 'with', [stmt(kw('with'), ident('$a'), op(' = '), strg('$s'), op(', '), ident('$b'), op(' = '), strg('$t')), stmt(kw('endwith'))],
     [('$a', 'WithVariable'), ('$b', 'WithVariable')]),
    ('macro', 'macro', [stmt(kw('macro'), ident('$m'), op('('), ident('$p'), op(', '), ident('$q'), op(')')), stmt(kw('endmacro'))],
     [('$m', 'MacroName'), ('$p', 'MacroParameter'), ('$q', 'MacroParameter')]),
    ('block', 'block', [stmt(kw('block'), ident('$b')), stmt(kw('endblock'), ident('$b2'))], [('$b', 'TemplateBlock')]),
    ('if', 'if', [stmt(kw('if'), ident('$c'), op(' == '), ident('$d')), stmt(kw('else')), stmt(kw('endif'))], []),
    ('for-filtered', 'for over a filtered call', [stmt(kw('for'), ident('$k'), kw('in'), ident('$o'), op('.'), ident('$f'), op('('), ident('$x'), op(')'), op('|'),
                                                      ident('$g'), kw('if'), ident('$k2')), stmt(kw('else')), stmt(kw('endfor'))], [('$k', 'ForLoopKey')]),
    ('set-filtered', 'set to an expression', [stmt(kw('set'), ident('$x'), op(' = '), ident('$y'), op('|'), ident('$f'), op(' + '), ident('$z'), op('.'), ident('$w'))],
     [('$x', 'SetVariable')]),
    ('macro-alone', 'macro without parameters', [stmt(kw('macro'), ident('$m'), op('('), op(')')), stmt(kw('endmacro'))], [('$m', 'MacroName')]),
    ('with-set', 'with and set inside', [stmt(kw('with'), ident('$a'), op(' = '), strg('$s')), stmt(kw('set'), ident('$x'), op(' = '), ident('$y')), stmt(kw('endwith'))],
     [('$a', 'WithVariable'), ('$x', 'SetVariable')]),
    ('expression', 'expression', [N('expression', N('expression_begin', text='{{'), N('identifier', text='$e'), N('expression_end', text='}}'))], []),
]

# constructs that are tried alone
MORE = [
    ('for-unfinished', 'unfinished for', [stmt(kw('for'))], []),
    ('set-unfinished', 'unfinished set', [stmt(kw('set'))], []),
    ('block-unfinished', 'unfinished block', [stmt(kw('block'))], []),
    ('with-empty', 'with without variables', [stmt(kw('with')), stmt(kw('endwith'))], []),
    ('set-inline', 'set to an inline if', [stmt(kw('set'), ident('$x'), op(' = '), ident('$y'), kw('if'), ident('$c'), kw('else'), ident('$z'))], [('$x', 'SetVariable')]),
    ('include-context', 'include with context', [stmt(kw('include'), strg('$t'), kw('with'), ident('context'))], []),
    ('from-context', 'from import with context', [stmt(kw('from'), strg('$t'), kw('import'), ident('$z'), kw('with'), ident('context'))], []),
    ('call', 'call block', [stmt(kw('call'), ident('$m'), op('('), ident('$y'), op(')')), stmt(kw('endcall'))], []),
    ('filter', 'filter block', [stmt(kw('filter'), ident('$f'), op('('), ident('$y'), op(')')), stmt(kw('endfilter'))], []),
    ('autoescape', 'autoescape block', [stmt(kw('autoescape'), ident('$y')), stmt(kw('endautoescape'))], []),
    ('if-in', 'if with operators that are words', [stmt(kw('if'), ident('$a'), kw('in'), ident('$b'), kw('and'), ident('$c'), kw('is'), ident('$d')), stmt(kw('endif'))], []),
    ('with-value', 'with whose value is a name', [stmt(kw('with'), ident('$a'), op(' = '), ident('$y')), stmt(kw('endwith'))], [('$a', 'WithVariable')]),
    ('with-in', 'with whose value asks for membership', [stmt(kw('with'), ident('$a'), op(' = '), strg('$s'), kw('in'), strg('$t'), op(', '), ident('$b'), op(' = '), strg('$u')),
                                                         stmt(kw('endwith'))], [('$a', 'WithVariable'), ('$b', 'WithVariable')]),
    ('block-names', 'block that is closed by name', [stmt(kw('block'), ident('$b'), ident('scoped')), stmt(kw('endblock'), ident('$b2'))], [('$b', 'TemplateBlock')]),
    ('raw', 'raw block', [stmt(kw('raw')), stmt(kw('endraw'))], []),
    ('for-control', 'for with white space control', [N('statement', N('statement_begin', N('white_space_control', text='-'), text='{%-'), N('keyword', text='for'), N('identifier', text='$k'),
                                                      N('keyword', text='in'), N('identifier', text='$y'), N('statement_end', N('white_space_control', text='-'), text='-%}')),
                                                      stmt(kw('endfor'))], [('$k', 'ForLoopKey')]),
    ('set-object', 'set to an object', [N('statement', N('statement_begin', text='{%'), N('keyword', text='set'), N('identifier', text='$x'), N('operator', text=' = '),
                                          N('object', N('string', text='"a"'), N('operator', text=': '), N('identifier', text='$y')), N('statement_end', text='%}'))], [('$x', 'SetVariable')]),
    ('comment', 'comment', [N('comment', text='{# $c #}')], []),
    ('macro-default', 'macro with a name as default', [stmt(kw('macro'), ident('$m'), op('('), ident('$p'), op('='), ident('$y'), op(')')), stmt(kw('endmacro'))],
     [('$m', 'MacroName'), ('$p', 'MacroParameter')]),
    ('set-names', 'set of two names', [stmt(kw('set'), ident('$a'), op(', '), ident('$b'), op(' = '), ident('$y'))], [('$a', 'SetVariable'), ('$b', 'SetVariable')]),
    ('for-names', 'for with three names', [stmt(kw('for'), ident('$a'), op(', '), ident('$b'), op(', '), ident('$c'), kw('in'), ident('$y')), stmt(kw('endfor'))],
     [('$a', 'ForLoopKey'), ('$b', 'ForLoopValue'), ('$c', 'ForLoopValue')]),
]

IMPORTS = [
    ('extends', 'extends', [stmt(kw('extends'), strg('$a'))], ['$a']),
    ('include', 'include', [stmt(kw('include'), strg('$a'))], ['$a']),
    ('include-list', 'include of a list', [stmt(kw('include'), op('['), strg('$a'), op(','), strg('$b'), op(']'))], ['$a', '$b']),
    ('from', 'from import', [stmt(kw('from'), strg('$a'), kw('import'), ident('$z'))], ['$a']),
    ('include-missing', 'include that may be missing', [stmt(kw('include'), strg('$a'), kw('ignore'), kw('missing'))], ['$a']),
    ('from-names', 'from import of two names', [stmt(kw('from'), strg('$a'), kw('import'), ident('$y'), op(','), ident('$z'))], ['$a']),
    ('import', 'import as', [stmt(kw('import'), strg('$a'), ident('as'), ident('$z'))], ['$a']),
    ('no-import', 'a string elsewhere', [stmt(kw('set'), ident('$x'), op(' = '), strg('$a'))], []),
]


def rcall(fn, *args):
    return N('call_expression', fn, N('arguments', *args))


def rfield(o, m):
    return N('field_expression', N('identifier', text=o, field='value'), N('field_identifier', text=m, field='field'), field='function')


def pcall(fn, *args):
    return N('call', fn, N('argument_list', *args, field='arguments'))


def pattr(o, m, field='function'):
    return N('attribute', N('identifier', text=o, field='object'), N('identifier', text=m, field='attribute'), field=field)


def kwarg(n):
    return N('keyword_argument', N('identifier', text=n, field='name'), N('identifier', text='value', field='value'))


def pstr(t):
    return N('string', N('string_start', text='"'), N('string_content', text=t), N('string_end', text='"'), text=t)


TEMPLATES = {'rust': [], 'python': []}
for m in ('render_jinja', 'get_template'):
    TEMPLATES['rust'] += [('method:' + m, '%s method' % m, [rcall(rfield('env', m), N('string_literal', text='$t'))], ['$t']),
                          ('function:' + m, '%s function' % m, [rcall(N('identifier', text=m, field='function'), N('string_literal', text='$t'))], ['$t'])]
    TEMPLATES['python'] += [('method:' + m, '%s method' % m, [pcall(pattr('env', m), pstr('$t'))], ['$t']),
                            ('function:' + m, '%s function' % m, [pcall(N('identifier', text=m, field='function'), pstr('$t'))], ['$t'])]
TEMPLATES['rust'] += [('second', 'a call with another string', [rcall(rfield('env', 'get_template'), N('string_literal', text='$t'), N('string_literal', text='$u'))], ['$t']),
                      ('like', 'a method with a longer name', [rcall(rfield('env', 'get_templates'), N('string_literal', text='$t'))], []),
                      ('nested', 'a call in a call', [rcall(N('identifier', text='Html', field='function'), rcall(rfield('env', 'get_template'), N('string_literal', text='$t')))], ['$t'])]
TEMPLATES['python'] += [('second', 'a call with another string', [pcall(pattr('env', 'get_template'), pstr('$t'), pstr('$u'))], ['$t']),
                        ('like', 'a method with a longer name', [pcall(pattr('env', 'get_templates'), pstr('$t'))], []),
                        ('nested', 'a call in a call', [pcall(N('identifier', text='print', field='function'), pcall(pattr('env', 'get_template'), pstr('$t')))], ['$t'])]
TEMPLATES['rust'].append(('other', 'another call', [rcall(rfield('env', 'insert'), N('string_literal', text='$t'))], []))
TEMPLATES['python'].append(('other', 'another call', [pcall(pattr('env', 'insert'), pstr('$t'))], []))

GLOBALS = {'rust': [('context', 'context macro', [N('macro_invocation', N('identifier', text='context', field='macro'), N('token_tree', N('identifier', text='$g')))], ['$g'])],
           'python': []}
for m in ('add_global', 'add_filter', 'add_function'):
    GLOBALS['rust'].append((m, 'jinja.%s' % m, [rcall(rfield('jinja', m), N('string_literal', text='$g'))], ['$g']))
GLOBALS['rust'] += [('other', 'another method', [rcall(rfield('jinja', 'remove'), N('string_literal', text='$g'))], []),
                    ('object', 'a method of something else', [rcall(rfield('other', 'add_global'), N('string_literal', text='$g'))], [])]
for m in ('globals', 'filters'):
    GLOBALS['python'].append((m, 'jinja_env.%s' % m, [N('subscript', pattr('jinja_env', m, 'value'), N('string', N('string_content', text='$g'), field='subscript'))], ['$g']))
for m in ('render_template', 'render'):
    GLOBALS['python'] += [('function:' + m, m, [pcall(N('identifier', text=m, field='function'), kwarg('$g'))], ['$g']),
                          ('method:' + m, 'method ' + m, [pcall(pattr('app', m), kwarg('$g'))], ['$g'])]
GLOBALS['python'] += [('other', 'another call', [pcall(N('identifier', text='print', field='function'), kwarg('$g'))], []),
                      ('object', 'another object', [N('subscript', pattr('other', 'globals', 'value'), N('string', N('string_content', text='$g'), field='subscript'))], [])]
GLOBALS['rust'] += [('context-like', 'a variable whose name contains the word context', [N('macro_invocation', N('identifier', text='context', field='macro'), N('token_tree', N('identifier', text='$context_id')))],
                     ['$context_id']),
                    ('before-error', 'a registration before a syntax error', [rcall(rfield('jinja', 'add_global'), N('string_literal', text='$g')), N('ERROR')], ['$g'])]
GLOBALS['python'] += [('like', 'a function with a longer name', [pcall(N('identifier', text='renderer', field='function'), kwarg('$g'))], []),
                      ('like-end', 'a function with a longer name', [pcall(N('identifier', text='prerender', field='function'), kwarg('$g'))], []),
                      ('like-method', 'a method with a longer name', [pcall(pattr('app', 'render_templates'), kwarg('$g'))], []),
                      ('like-field', 'another attribute', [N('subscript', pattr('jinja_env', 'globals2', 'value'), N('string', N('string_content', text='$g'), field='subscript'))], []),
                      ('before-error', 'a variable before a syntax error', [pcall(pattr('app', 'render'), kwarg('$g')), N('ERROR')], ['$g'])]


# ---------------------------------------------------------------- what the server gives to an extractor and takes from it
def queries(S, q):
    """{grammar: texts} of the queries a term can be"""
    out = {}
    for t in rules.through(S, q):
        if t.k == 'call' and t.a[0] == 'query' and t.a[1].k == 'const' and t.a[2].k == 'str':
            out.setdefault(str(t.a[1].a[0]).split('::')[0].replace('tree_sitter_', ''), set()).add(t.a[2].a[0])
    return out


def calls(S):
    """{extractor: calls}"""
    out = {}
    for e in S.events:
        if e.kind == 'call' and e.name.startswith('fn:'):
            out.setdefault(e.name[3:], []).append(e)
    return out


def items(v):
    """elements of a collection made of known parts"""
    l = tm.literal(v)
    if l is not None:
        return l
    out = []
    while v.k == 'put':
        out.insert(0, tm.tup(v.a[1], v.a[2]))
        v = v.a[0]
    return out if v.k == 'emap' else None


def instances(S, bs, g, y, m, on):
    """(order, value) of an element of a collection whose parts are known"""
    todo = [((), dict(m))]
    for b in bs:
        nxt = []
        for o, env in todo:
            if on(rules.rewrite(g, env, None, steps.ends)) is FALSE:
                continue
            s = rules.rewrite(b.a[0], env, None, steps.ends) if b.k == 'elem' else None
            l = items(on(s)) if s is not None else None
            if l is None:
                yield None, None
                return
            for i, x in enumerate(l):
                e2 = dict(env)
                e2[b] = x
                e2[tm.mk('call', 'index_of', b)] = tm.I(i)
                nxt.append((o + (i,), e2))
        todo = nxt
    for o, env in todo:
        c = on(rules.rewrite(g, env, None, steps.ends))
        if c is not FALSE:
            yield o, (c, on(rules.rewrite(y, env, None, steps.ends)))


def collected(S, els, call_field, value, on):
    """[(condition, identifier)] that come out when the part of the extractor's result is value"""
    out = []
    for n, (bs, g, y) in enumerate(els):
        for o, r in instances(S, bs, g, y, {call_field: value}, on):
            if o is None:
                return None
            out.append((o[:1], n if len(o) < 2 else 0, o[1:], r))
    out.sort(key=lambda r: r[:3])
    return [r[3] for r in out]


def clean(name):
    """the text a name is made of"""
    while name.k == 'call' and str(name.a[0]).split('::')[-1] in ('replace', 'to_string', 'trim_matches') and len(name.a) > 1:
        name = name.a[1]
    return name


QUOTED = {'"a"': 'a', "'a'": 'a'}


def plain(t, node, raw):
    """the name a term yields for a node with this text, if it is made by known text functions"""
    if t is node:
        return raw
    if t.k == 'str':
        return t.a[0]
    if t.k != 'call' or len(t.a) < 2:
        return None
    f = str(t.a[0]).split('::')[-1]
    x = plain(t.a[1], node, raw)
    if x is None or len(t.a) < 3:
        return x if f in ('to_string', 'to_owned') else x.strip() if f == 'trim' and x is not None else None
    l = tm.literal(t.a[2])
    pats = [p.a[0] for p in l if p.k == 'str'] if l is not None else [t.a[2].a[0]] if t.a[2].k == 'str' else None
    if pats is None or l is not None and len(pats) != len(l):
        return None
    if f == 'replace' and t.a[3].k == 'str':
        for p in pats:
            x = x.replace(p, t.a[3].a[0])
        return x
    go = True
    while go and f in ('trim_matches', 'trim_start_matches', 'trim_end_matches'):
        go = False
        for p in pats:
            if p and f != 'trim_end_matches' and x.startswith(p):
                x, go = x[len(p):], True
            if p and f != 'trim_start_matches' and x.endswith(p):
                x, go = x[:-len(p)], True
    return x if f.startswith('trim') else None


class Case(object):
    def __init__(self, parts):
        self.root = N('source_file', *parts)
        self.names = {id(n): 'n%d' % i for i, n in enumerate(self.root.walk())}
        self.nodes = list(self.root.walk())

    def node(self, text):
        return [self.names[id(n)] for n in self.nodes if n.text == text]


def fresh(parts, suffix=''):
    def cp(n):
        r = N(n.kind, *[cp(c) for c in n.children], text=n.text + suffix if n.text[:1] == '$' else n.text, field=n.field)
        return r
    return [cp(p) for p in parts]


def late(parts):
    return {n.text for p in parts for n in p.walk()}


def found(case, r):
    """(name, type, range is its own) of an identifier"""
    c, y = r
    name = clean(rules.sel(y, ('Identifier', 'name')))
    ty = rules.sel(y, ('Identifier', 'identifier_type'))
    nm = '$' + str(name.a[0])[5:] if name.k == 'sym' and str(name.a[0]).startswith('text:') else rules.flat(name, 60)
    kind = tm.VN[ty.a[0]][ty.a[1]] if ty.k == 'agg' and ty.a[0] in tm.VN else rules.flat(ty, 80)
    own = False
    for n in case.node(nm):
        node = tm.sym('node:' + n)
        s, e = rules.sel(y, ('Identifier', 'start')), rules.sel(y, ('Identifier', 'end'))
        own = own or (s.k == 'call' and s.a[0].endswith('start_position') and s.a[1] is node and e.k == 'call' and e.a[0].endswith('end_position') and e.a[1] is node)
    return nm, kind, own, c is TRUE


def named(on):
    """no name is empty"""
    return lambda t: rules.assume_by(on(t), lambda u: False if steps.named(u.a[0] if u.k == 'bool' else u) else None)


def decide(k, S, group, x, text, els, fld, key, what, parts, want, on, only=None):
    case = Case(parts)
    try:
        st = x.run(query.Query(text).matches(case.root), case.names, ('error',))
    except query.Bad as e:
        k.ob('%s:%s' % (group, key), False, 'the syntax query can be read', x.key, str(e))
        return
    except steps.Stopped as e:
        k.ob('%s:%s' % (group, key), False, 'all of %s is looked at' % what, x.key, str(e))
        return
    got = collected(S, els, fld, x.result(fld, st), named(on))
    if got is not None:
        for c, y in got:
            quotes(k, S, group, x, y)
        got = [found(case, r) for r in got]
        if only:
            got = [r for r in got if r[1] in only]
    ok = got is not None and [(n, t) for n, t, own, sure in got] == want and all(own and sure for n, t, own, sure in got)
    k.ob('%s:%s' % (group, key), ok, '%s is recognised as %s' % (what, ', '.join('%s %s' % w for w in want) or 'no definition'), x.key,
         'found %s' % (got if got is not None else rules.flat(st[x.part(fld)], 300)))


def quotes(k, S, group, x, y):
    """a template name is its text without the quotes, whichever they are"""
    ty = rules.sel(y, ('Identifier', 'identifier_type'))
    if ty.k != 'agg' or tm.VN[ty.a[0]][ty.a[1]] != 'JinjaTemplate':
        return
    name = rules.sel(y, ('Identifier', 'name'))
    node = clean(name)
    bad = ['%s yields %s' % (raw, got) for raw, want in sorted(QUOTED.items()) for got in [plain(name, node, raw)] if got not in (None, want)]
    key = 'quotes:%s' % group
    if bad or not any(o[0] == key for o in k.obs):
        k.ob(key, not bad, 'a template name is the text between the quotes', x.key, '; '.join(bad))


def through_call(els, on):
    """elements that come from a part of an extractor's result: {(extractor, part): elements}"""
    out = {}
    for bs, g, y in els:
        bs, g, y = tuple(on(b) for b in bs), on(g), on(y)
        if not bs or bs[0].k != 'elem':
            continue
        f = bs[0].a[0]
        if f.k == 'f' and f.a[0].k == 'call' and str(f.a[0].a[0]).startswith('fn:'):
            out.setdefault((f.a[0].a[0][3:], f), []).append((bs, g, y))
    return out


def given(S, es):
    """the query texts these calls of an extractor are given, by grammar"""
    qs = {}
    for e in es:
        for gr, ts in queries(S, e.args[0]).items():
            qs.setdefault(gr, set()).update(ts)
    return qs


def recorded(S, ext):
    """what a document's identifiers are when it was opened: (extractor, part of its result, elements made of it, assumptions)"""
    s = S.scene('DidOpen', ext, True)
    uri = rules.sel(s.param(), *c07.URI['DidOpen'])
    memo = {}

    def fine(t):
        u = t.a[0] if t.k == 'bool' else t
        return False if u.k == 'f' and u.a[1].split('::')[-1] == 'Snippets' else None
    on = lambda z: s.on(rules.assume_by(z, fine, memo))
    els = list(rules.elements(S, tm.payload(tm.mget(s.after('variables'), uri)), TRUE, on=on))
    for (key, f), el in sorted(through_call(els, on).items(), key=lambda r: r[0][0]):
        yield key, f, el, on


def looked_up(S, s):
    """the template references of a document whose files are looked up: (extractor and part, elements made of it, assumptions)"""
    gone = tm.VN[S.jdiag_adt].index('TemplateNotFound')
    memo = {}

    def fine(t):
        while t.k == 'bool' and isinstance(t.a[0], tm.T):
            t = t.a[0]
        if t.k == 'call' and t.a[0] == 'no_canonical':
            return True
        return False if t.k == 'f' and t.a[1].split('::')[-1] == 'Snippets' else None
    seqs, direct = set(), []
    for c, mb, uri, lst, e in c19.lists(S, s):
        for bs, g, y in rules.elements(S, s.on(lst), TRUE, on=s.on):
            for b in bs:
                if b.k == 'elem' and b.a[0].k in ('lv', 'seq', 'gv'):
                    seqs.add(b.a[0])
            if y.k == 'agg' and len(y.a) == 4:
                for h, d in rules.pruned(y.a[2], g):
                    if d.k == 'agg' and d.a[1] == gone:
                        direct.append((bs, h, y.a[3]))
    for q in sorted(seqs, key=lambda t: t.id):
        for r, el in sorted(through_call(list(rules.elements(S, q, TRUE, on=s.on)), s.on).items(), key=lambda r: r[0][0]):
            yield r, el, s.on
    on = lambda z: s.on(rules.assume_by(z, fine, memo))
    for r, el in sorted(through_call(direct, on).items(), key=lambda r: r[0][0]):
        yield r, el, on


def check(k):
    S = k.server()
    prog = S.prog
    ex = {}
    called = calls(S)
    known = set()
    for key, es in sorted(called.items()):
        qs = given(S, es)
        try:
            x = ex[key] = steps.Extractor(prog, key)
        except steps.Missing as e:
            k.ob('extractor:' + key, False, 'the extractor can be analysed', key, str(e))
            continue
        x.queries = qs
        made = set()
        for gr, ts in qs.items():
            for t in ts:
                try:
                    made |= query.Query(t).captures()
                except query.Bad as e:
                    k.ob('query:' + key, False, 'the syntax query can be read', key, str(e))
        names = x.names()
        known |= names
        short = key.split('::')[-1]
        k.ob('queries:' + short, bool(qs), 'the extractor is given built-in queries', key)
        for n in sorted(names):
            k.ob('capture:%s:%s' % (short, n), n in made, 'a capture the extractor handles is made by its query', key, '%s is not among %s' % (n, sorted(made)))
    k.floor('extractors', len(ex), 6)
    k.floor('capture names', len(known), 15)
    n = 0
    # ---- definitions of templates and backend files, as recorded
    for ext in ('html', 'rs'):
        for key, f, el, on in recorded(S, ext):
            x = ex.get(key)
            short = key.split('::')[-1]
            if x is None:
                k.ob('extractor:' + key, False, 'the extractor can be analysed', key)
                continue
            for gr, ts in sorted(x.queries.items()):
                table = DEFS if gr == 'jinja2' else None
                if table is None:
                    table = TEMPLATES[gr] if 'templates' in short else GLOBALS[gr]
                ty = {'jinja2': None}.get(gr, 'JinjaTemplate' if 'templates' in short else 'BackendVariable')
                for t in sorted(ts):
                    for key2, what, parts, want in MORE if gr == 'jinja2' else ():
                        n += 1
                        decide(k, S, short + ':' + gr, x, t, el, f, key2, what, fresh(parts), want, on)
                    for key2, what, parts, want in table:
                        want = [(w, ty) for w in want] if ty else want
                        n += 1
                        decide(k, S, short + ':' + gr, x, t, el, f, key2, what, fresh(parts), want, on)
                        for key0, what0, parts0, want0 in table if gr == 'jinja2' else ():
                            if len(parts0) > 1:
                                n += 1
                                decide(k, S, short + ':' + gr, x, t, el, f, '%s-in-%s' % (key2, key0), '%s in %s' % (what, what0),
                                       fresh(parts0[:1], '0') + fresh(parts) + fresh(parts0[1:], '0'), [(a + '0', b) for a, b in want0 if a not in late(parts0[1:])] + want
                                       + [(a + '0', b) for a, b in want0 if a in late(parts0[1:])], on)
                        for key0, what0, parts0, want0 in table:
                            if parts0[-1].kind == 'ERROR':
                                # what follows a syntax error may be looked at or not
                                continue
                            want0 = [(w, ty) for w in want0] if ty else want0
                            n += 1
                            decide(k, S, short + ':' + gr, x, t, el, f, '%s-after-%s' % (key2, key0), '%s after %s' % (what, what0), fresh(parts0, '0') + fresh(parts),
                                   [(a + '0', b) for a, b in want0] + want, on)
    # ---- references to templates
    s = S.scene('DidOpen', 'html', True)
    for (key, f), el, on in looked_up(S, s):
        x = ex.get(key)
        if x is not None and set(x.queries) == {'jinja2'}:
            for t in sorted(x.queries['jinja2']):
                for key2, what, parts, want in IMPORTS:
                    want = [(w, 'JinjaTemplate') for w in want]
                    n += 1
                    decide(k, S, 'imports', x, t, el, f, key2, what, fresh(parts), want, on, ('JinjaTemplate',))
                    for key0, what0, parts0, want0 in IMPORTS:
                        n += 1
                        decide(k, S, 'imports', x, t, el, f, '%s-after-%s' % (key2, key0), '%s after %s' % (what, what0), fresh(parts0, '0') + fresh(parts),
                               [(a + '0', 'JinjaTemplate') for a in want0] + want, on, ('JinjaTemplate',))
    k.floor('constructs', n, 500)
    for group, least in (('jinja2', 300), ('rust', 40), ('python', 40), ('imports', 60)):
        k.floor('constructs for ' + group, sum(group in o[0].split(':')[:2] for o in k.obs), least)
