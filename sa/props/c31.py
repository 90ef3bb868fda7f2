"""C31: expressions are read as the variables, fields, filters and tests that are written there."""
import query
import rules
import steps
import terms as tm
from bdd import TRUE, FALSE
from query import Node as N

RULE = ('For shapes of expressions and tags, laid out on one line and over several lines, the syntax query text decides '
        'which captures they make; the transfer functions of the extractor of objects (taken from the MIR; both loops, '
        'over matches and over captures, with every object wanted) are composed along these captures.  The list that '
        'comes out must have one entry for each identifier that is a variable, a filter or a test - a filter exactly if '
        'it directly follows the operator |, a test exactly if it follows the keyword is - with its own name and place, '
        'and the names behind dots as the fields of the object before the dot, in order, with their own places; '
        'fields of other values, the words that are part of the language (also those that are only words at certain places of '
        'certain tags), names of keyword arguments and numbers have none.  What functions make of the given texts of words and '
        'operators is known; names are symbols about which it is only known that they hold letters, digits and underscores.')

WORDS = ('loop', 'true', 'false', 'not', 'as', 'module', 'super', 'url_for', 'if', 'else', 'and', 'or', 'in', 'none', 'None', 'True', 'False')
KEYWORDS = 'for in endfor if and or endif else elif raw endraw macro endmacro extends block endblock call endcall filter endfilter set endset include import from autoescape endautoescape trans endtrans pluralize with endwith debug do is'.split()


def tag(begin, *toks):
    """a tag and the gaps between its tokens"""
    end = {'{{': '}}', '{%': '%}', '{%-': '-%}', '': ''}[begin]
    kind = 'expression' if begin == '{{' else 'statement'
    out = [(N(kind + '_begin', text=begin), '')]
    gap = ' '
    for t in toks:
        if isinstance(t, N):
            out.append((t, gap))
            gap = ' '
        elif not t.strip() or not t:
            gap = t
            continue
        elif t[0] in '"\'':
            out.append((N('string', text=t), gap))
        elif t[0] == '$' or t[0].isalnum() or t[0] == '_':
            k = 'keyword' if kind == 'statement' and t in KEYWORDS else 'identifier'
            out.append((N(k, text=t), gap))
        else:
            # white space behind an operator is part of it
            out.append((N('operator', text=t), gap))
            gap = '' if t[-1].isspace() else ' '
            continue
        gap = ' '
    out.append((N(kind + '_end', text=end), gap))
    return N(kind, *[t for t, g in out]), [g for t, g in out]


def E(*toks):
    return tag('{{', *toks)


def T(*toks):
    return tag('{%', *toks)


V, F, X = 'variable', 'filter', 'test'
G = ''           # no gap

SHAPES = [
    ('one', 'a variable', [E('$a')], [('$a', V, [])]),
    ('tight', 'a variable without white space', [E(G, '$a', G)], [('$a', V, [])]),
    ('field', 'a field', [E('$a', G, '.', G, '$b')], [('$a', V, ['$b'])]),
    ('fields', 'fields of fields', [E('$a', G, '.', G, '$b', G, '.', G, '$c')], [('$a', V, ['$b', '$c'])]),
    ('filter', 'a filter', [E('$a', '| ', '$f')], [('$a', V, []), ('$f', F, [])]),
    ('filter-tight', 'a filter without white space', [E('$a', G, '|', G, '$f')], [('$a', V, []), ('$f', F, [])]),
    ('filters', 'two filters', [E('$a', '| ', '$f', '| ', '$g')], [('$a', V, []), ('$f', F, []), ('$g', F, [])]),
    ('fields-long', 'a longer chain of fields', [E('$a', G, '.', G, '$b', G, '.', G, '$c', G, '.', G, '$d', G, '.', G, '$e')], [('$a', V, ['$b', '$c', '$d', '$e'])]),
    ('fields-long-between', 'a longer chain of fields between names', [E('$a', '+ ', '$b', G, '.', G, '$c', G, '.', G, '$d', G, '.', G, '$e', '+ ', '$g')],
     [('$a', V, []), ('$b', V, ['$c', '$d', '$e']), ('$g', V, [])]),
    ('names-many', 'many names', [E('$a', '+ ', '$b', '- ', '$c', '* ', '$d', '/ ', '$e')], [(x, V, []) for x in ('$a', '$b', '$c', '$d', '$e')]),
    ('field-filter', 'a filter of a field', [E('$a', G, '.', G, '$b', '| ', '$f')], [('$a', V, ['$b']), ('$f', F, [])]),
    ('string-filter', 'a filter of a string', [E('"s"', '| ', '$f')], [('$f', F, [])]),
    ('call', 'a call', [E('$a', G, '(', G, '$b', G, ')')], [('$a', V, []), ('$b', V, [])]),
    ('call-field', 'a call of a method', [E('$a', G, '.', G, '$m', G, '(', G, '$b', G, ', ', '$c', G, ')')], [('$a', V, ['$m']), ('$b', V, []), ('$c', V, [])]),
    ('filter-args', 'a filter with arguments', [E('$a', '| ', '$f', G, '(', G, '$b', G, ')')], [('$a', V, []), ('$f', F, []), ('$b', V, [])]),
    ('filter-field', 'a filter with a field as argument', [E('$a', '| ', '$f', G, '(', G, '$b', G, '.', G, '$c', G, ')')], [('$a', V, []), ('$f', F, []), ('$b', V, ['$c'])]),
    ('sum', 'an operator', [E('$a', '+ ', '$b')], [('$a', V, []), ('$b', V, [])]),
    ('sum-fields', 'an operator between fields', [E('$a', G, '.', G, '$b', '~ ', '$c', G, '.', G, '$d')], [('$a', V, ['$b']), ('$c', V, ['$d'])]),
    ('index', 'an index', [E('$a', G, '[', G, '$b', G, ']')], [('$a', V, []), ('$b', V, [])]),
    ('number', 'a number', [E('$a', '+ ', '42')], [('$a', V, [])]),
    ('string', 'a string', [E('"s"')], []),
    ('empty', 'an empty expression', [E()], []),
    ('same', 'one variable twice', [E('$a', '+ ', '$a')], [('$a', V, []), ('$a', V, [])]),
    ('if', 'a condition', [T('if', '$a'), T('endif')], [('$a', V, [])]),
    ('if-field', 'a condition on a field', [T('if', '$a', G, '.', G, '$b'), T('endif')], [('$a', V, ['$b'])]),
    ('if-and', 'a condition with operators that are words', [T('if', '$a', 'and', '$b', 'or', '$c'), T('endif')], [('$a', V, []), ('$b', V, []), ('$c', V, [])]),
    ('if-in', 'a condition that asks for membership', [T('if', '$a', 'in', '$b'), T('endif')], [('$a', V, []), ('$b', V, [])]),
    ('if-filter', 'a condition with a filter', [T('if', '$a', '| ', '$f'), T('endif')], [('$a', V, []), ('$f', F, [])]),
    ('is', 'a test', [T('if', '$a', 'is', '$t'), T('endif')], [('$a', V, []), ('$t', X, [])]),
    ('is-field', 'a test of a field', [T('if', '$a', G, '.', G, '$b', 'is', '$t'), T('endif')], [('$a', V, ['$b']), ('$t', X, [])]),
    ('is-not', 'a test that is negated', [T('if', '$a', 'is', 'not', '$t'), T('endif')], [('$a', V, []), ('$t', X, [])]),
    ('is-and', 'a condition behind a test', [T('if', '$a', 'is', '$t', 'and', '$b'), T('endif')], [('$a', V, []), ('$t', X, []), ('$b', V, [])]),
    ('is-args', 'a test with an argument', [T('if', '$a', 'is', '$t', G, '(', G, '$b', G, ')'), T('endif')], [('$a', V, []), ('$t', X, []), ('$b', V, [])]),
    ('is-is', 'two tests', [T('if', '$a', 'is', '$t', 'or', '$b', 'is', '$u'), T('endif')], [('$a', V, []), ('$t', X, []), ('$b', V, []), ('$u', X, [])]),
    ('filter-is', 'a test behind a filter', [T('if', '$a', '| ', '$f', 'is', '$t'), T('endif')], [('$a', V, []), ('$f', F, []), ('$t', X, [])]),
    ('for', 'a loop', [T('for', '$k', G, ', ', '$v', 'in', '$a', G, '.', G, '$b'), T('endfor')], [('$k', V, []), ('$v', V, []), ('$a', V, ['$b'])]),
    ('set', 'an assignment', [T('set', '$a', '= ', '$b', G, '.', G, '$c')], [('$a', V, []), ('$b', V, ['$c'])]),
    ('include', 'an include', [T('include', '"t"')], []),
    ('include-with', 'an include with context', [T('include', '"t"', 'with', 'context')], []),
    ('import-with', 'an import with context', [T('import', '"t"', 'as', '$a', 'with', 'context')], [('$a', V, [])]),
    ('with', 'a with block', [T('with', '$a', '= ', '$b'), T('endwith')], [('$a', V, []), ('$b', V, [])]),
    ('with-context', 'a with block of a variable', [T('with', '$context', '= ', '$b'), T('endwith')], [('$context', V, []), ('$b', V, [])]),
    ('context', 'a variable', [E('context')], [('context', V, [])]),
    ('loop-field', 'a field of the loop', [E('loop', '+ ', '$a', G, '.', G, '$b')], [('$a', V, ['$b'])]),
    ('word-field', 'a field with the name of a word of the language', [E('$a', G, '.', G, 'module')], [('$a', V, ['module'])]),
    ('underscore', 'a name that starts with an underscore', [E('_a')], [('_a', V, [])]),
    ('digits', 'a name with digits', [E('a1')], [('a1', V, [])]),
    ('control', 'white space control', [tag('{%-', 'if', '$a', 'is', '$t'), T('endif')], [('$a', V, []), ('$t', X, [])]),
    ('inline-if', 'a conditional expression', [E('$a', 'if', '$b', 'else', '$c')], [('$a', V, []), ('$b', V, []), ('$c', V, [])]),
    ('words', 'an expression with operators that are words', [E('$a', 'and', 'not', '$b', 'or', '$c', 'in', '$d')], [('$a', V, []), ('$b', V, []), ('$c', V, []), ('$d', V, [])]),
    ('expr-is', 'a test in an expression', [E('$a', 'is', '$t', 'and', '$b')], [('$a', V, []), ('$t', X, []), ('$b', V, [])]),
    ('expr-is-not', 'a negated test in an expression', [E('$a', 'is', 'not', '$t', 'or', '$b')], [('$a', V, []), ('$t', X, []), ('$b', V, [])]),
    ('expr-is-args', 'a test with an argument in an expression', [E('$a', 'is', '$t', G, '(', G, '$b', G, ')')], [('$a', V, []), ('$t', X, []), ('$b', V, [])]),
    ('is-field-name', 'a field called is', [E('$a', G, '.', G, 'is', '+ ', '$b')], [('$a', V, ['is']), ('$b', V, [])]),
    ('is-none', 'a test called none', [T('if', '$a', 'is', 'none'), E('$b')], [('$a', V, []), ('none', X, []), ('$b', V, [])]),
    ('is-not-true', 'a test called true', [T('if', '$a', 'is', 'not', 'true'), E('$b')], [('$a', V, []), ('true', X, []), ('$b', V, [])]),
    ('is-in', 'a test called in', [T('if', '$a', 'is', 'in', '$b'), E('$c')], [('$a', V, []), ('$b', V, []), ('$c', V, [])]),
    ('expr-is-in', 'a test called in, in an expression', [E('$a', 'is', 'in', '$b')], [('$a', V, []), ('in', X, []), ('$b', V, [])]),
    ('call-filter', 'a filter of a call', [E('$a', G, '() | ', G, '$f')], [('$a', V, []), ('$f', F, [])]),
    ('call-filter-break', 'a filter of a call on the next line', [E('$a', G, '()\n  | ', G, '$f', '+ ', '$b')], [('$a', V, []), ('$f', F, []), ('$b', V, [])]),
    ('call-filter-tight', 'a filter of a call without white space', [E('$a', G, '(', G, '$b', G, ')|', G, '$f')], [('$a', V, []), ('$b', V, []), ('$f', F, [])]),
    ('index-filter', 'a filter of an element', [E('$a', G, '[', G, '"k"', G, '] | ', G, '$f')], [('$a', V, []), ('$f', F, [])]),
    ('list-filter', 'a filter of a list', [E('[', G, '$a', G, ']|', G, '$f', '| ', '$g')], [('$a', V, []), ('$f', F, []), ('$g', F, [])]),
    ('filter-args-filter', 'a filter of a filter with arguments', [E('$a', '| ', '$f', G, '(', G, '$b', G, ') | ', G, '$g')], [('$a', V, []), ('$f', F, []), ('$b', V, []), ('$g', F, [])]),
    ('call-then', 'an operator behind a call', [E('$a', G, '() ~ ', G, '$b')], [('$a', V, []), ('$b', V, [])]),
    ('call-of-field', 'a field of what a call returns', [E('$a', G, '().', G, '$b', '+ ', '$c')], [('$a', V, []), ('$c', V, [])]),
    ('call-of-fields', 'fields of what a call returns', [E('$a', G, '().', G, '$b', G, '.', G, '$c', G, '(', G, '$d', G, '.', G, '$e', G, ')')], [('$a', V, []), ('$d', V, ['$e'])]),
    ('index-field', 'a field of an element', [E('$a', G, '[', G, '"k"', G, '].', G, '$b')], [('$a', V, [])]),
    ('loop-member', 'a member of the loop', [E('loop', G, '.', G, 'index')], []),
    ('loop-member-after', 'a member of the loop behind a variable', [E('$a', '+ ', 'loop', G, '.', G, 'index', '+ ', '$b')], [('$a', V, []), ('$b', V, [])]),
    ('method', 'a method of a string', [E('"s"', G, '.', G, 'join', G, '(', G, '$a', G, '.', G, '$b', G, ')')], [('$a', V, ['$b'])]),
    ('method-after', 'a method of a string behind a variable', [E('$a', '~ ', '"s"', G, '.', G, 'join', G, '(', G, '$b', G, ')')], [('$a', V, []), ('$b', V, [])]),
    ('dot-space', 'a field behind white space', [E('$a', '. ', '$b', G, '. ', '$c')], [('$a', V, ['$b', '$c'])]),
    ('filter-dot', 'a filter with a dot in its name', [E('$a', '| ', '$f', G, '.', G, '$g')], [('$a', V, []), ('$f', F, ['$g'])]),
    ('keyword-argument', 'a keyword argument', [E('$a', G, '(', G, '$k', G, '=', G, '$b', G, ')')], [('$a', V, []), ('$b', V, [])]),
    ('keyword-arguments', 'keyword arguments', [E('$a', G, '(', G, '"s"', G, ', ', '$k', '= ', '$b', G, '.', G, '$c', G, ', ', '$l', G, '=[', G, '$d', G, '])')], [('$a', V, []), ('$b', V, ['$c']), ('$d', V, [])]),
    ('equal-argument', 'an argument that compares', [E('$a', G, '(', G, '$b', '== ', '$c', G, ')')], [('$a', V, []), ('$b', V, []), ('$c', V, [])]),
    ('if-keyword', 'a keyword argument in a condition', [T('if', '$a', G, '(', G, '$k', G, '=', G, '$b', G, ')'), T('endif')], [('$a', V, []), ('$b', V, [])]),
    ('set-keyword', 'a keyword argument in an assignment', [T('set', '$a', '= ', '$b', G, '(', G, '$k', G, '=', G, '$c', G, ')')], [('$a', V, []), ('$b', V, []), ('$c', V, [])]),
    ('with-two', 'a with block of two variables', [T('with', '$a', '= ', '$b', G, ', ', '$c', '= ', '$d'), T('endwith')], [('$a', V, []), ('$b', V, []), ('$c', V, []), ('$d', V, [])]),
    ('macro', 'a macro with defaults', [T('macro', '$m', G, '(', G, '$a', G, ', ', '$b', G, '=', G, '1', G, ', ', '$c', G, '=', G, '2', G, ')'), T('endmacro')], [('$m', V, []), ('$a', V, []), ('$b', V, []), ('$c', V, [])]),
    ('call-block', 'a call block', [T('call', '$a', G, '(', G, '$k', G, '=', G, '1', G, ')'), T('endcall')], [('$a', V, [])]),
    ('filter-block', 'a filter block', [T('filter', '$f'), E('$a'), T('endfilter')], [('$f', F, []), ('$a', V, [])]),
    ('filter-block-args', 'a filter block with an argument', [T('filter', '$f', G, '(', G, '$a', G, ')|', G, '$g'), T('endfilter')], [('$f', F, []), ('$a', V, []), ('$g', F, [])]),
    ('ignore-missing', 'an include that may be missing', [T('include', '"t"', 'ignore', 'missing')], []),
    ('ignore-without', 'an include of a variable that may be missing, without context', [T('include', '$a', 'ignore', 'missing', 'without', 'context')], [('$a', V, [])]),
    ('import-without', 'an import without context', [T('from', '"t"', 'import', '$a', 'without', 'context')], [('$a', V, [])]),
    ('recursive', 'a recursive loop', [T('for', '$a', 'in', '$b', 'recursive'), T('endfor')], [('$a', V, []), ('$b', V, [])]),
    ('recursive-call', 'a recursive loop over what a call returns', [T('for', '$a', 'in', '$b', G, '() ', G, 'recursive'), T('endfor')], [('$a', V, []), ('$b', V, [])]),
    ('recursive-name', 'a loop over a variable called recursive', [T('for', '$a', 'in', 'recursive'), T('endfor')], [('$a', V, []), ('recursive', V, [])]),
    ('recursive-if', 'a loop with a condition on a variable called recursive', [T('for', '$a', 'in', '$b', 'if', 'not', 'recursive'), T('endfor')], [('$a', V, []), ('$b', V, []), ('recursive', V, [])]),
    ('scoped', 'a scoped block', [T('block', '$a', 'scoped'), T('endblock')], [('$a', V, [])]),
    ('scoped-name', 'a block called scoped', [T('block', 'scoped'), T('endblock')], [('scoped', V, [])]),
    ('required', 'a required block', [T('block', '$a', 'required'), T('endblock')], [('$a', V, [])]),
    ('words-alone', 'variables with the names of such words', [E('ignore', '+ ', 'missing', '+ ', 'without', '+ ', 'recursive', '+ ', 'scoped')], [(w, V, []) for w in ('ignore', 'missing', 'without', 'recursive', 'scoped')]),
    ('unary', 'a sign', [E('-', G, '$a', '* ', '(', G, '$b', '+ ', '$c', G, ')|', G, '$f')], [('$a', V, []), ('$b', V, []), ('$c', V, []), ('$f', F, [])]),
    ('list', 'a list', [E('[', G, '$a', G, ', ', '$b', G, '.', G, '$c', G, ']')], [('$a', V, []), ('$b', V, ['$c'])]),
    ('comment', 'a comment', [(N('comment', text='{# c #}'), None)], []),
    ('object', 'an object', [E(N('object', N('string', text='"k"'), N('operator', text=': '), N('identifier', text='$a'), text=None))], [('$a', V, [])]),
] + [('word-' + w, 'the word ' + w, [E(w)], []) for w in WORDS]


class Laid(object):
    """tags put into a text: where every node starts and ends"""

    def __init__(self, tags, at, wrap):
        self.row, self.col = at
        self.wrap = wrap
        self.places = {}
        roots = []
        for n, gaps in tags:
            self.put(n, gaps)
            roots.append(n)
        self.root = N('source_file', *roots)
        self.places[id(self.root)] = (at, (self.row, self.col))
        self.names = {id(n): 'n%d' % i for i, n in enumerate(self.root.walk())}
        self.tree = steps.Tree(self.root, self.names, self.places)

    def move(self, text):
        if '\n' in text:
            self.row += text.count('\n')
            self.col = len(text) - text.rindex('\n') - 1
        else:
            self.col += len(text)

    def put(self, n, gaps=None):
        start = self.row, self.col
        if n.children:
            if n.kind == 'object':
                self.col += 1
            for i, c in enumerate(n.children):
                g = gaps[i] if gaps else ''
                self.move('\n' if self.wrap and g else g)
                self.put(c)
            if n.kind == 'object':
                self.col += 1
        else:
            if self.wrap and n.kind == 'operator' and n.text[-1:] == ' ':
                n.text = n.text[:-1] + '\n'
            self.move(n.text.replace('$', ''))
        self.places[id(n)] = start, (self.row, self.col)


def copies(tags, suffix):
    def cp(n):
        return N(n.kind, *[cp(c) for c in n.children], text=n.text + suffix if n.text and n.text[:1] == '$' else n.text, field=n.field)
    return [(cp(n), gaps) for n, gaps in tags]


LAYOUTS = [('line', (0, 0), False), ('line-later', (7, 12), False), ('lines', (0, 0), True), ('lines-later', (3, 1), True)]


def holder(prog, key):
    """the part of an extractor's result that is a list of objects: (owner, index)"""
    body = prog.bodies[key]
    cr = body['crate']
    t = cr.types[body['locals'][0][0]]
    d = prog.adts.get(t.get('p'))
    if not d or len(d['variants']) != 1:
        return None
    for i, (name, ti) in enumerate(d['variants'][0]['f']):
        ft = d['crate'].types[ti]
        for a in ft.get('a') or ():
            e = prog.adts.get(d['crate'].types[a].get('p')) if isinstance(a, int) else None
            if e and {'is_filter', 'is_test', 'fields'} <= {f for f, _ in e['variants'][0]['f']}:
                return t['p'], i, d['crate'].types[a]['p'].split('::')[-1]
    return None


def names_differ(t):
    """names are not words of the language"""
    if t.k == 'eq':
        a, b = t.a[:2]
        for x, y in ((a, b), (b, a)):
            if x.k == 'sym' and str(x.a[0]).startswith('text:'):
                if y.k == 'str':
                    return False
                if y.k == 'sym' and str(y.a[0]).startswith('text:'):
                    return x is y
    return None


def plain(t):
    while t.k == 'call' and str(t.a[0]).split('::')[-1] in ('to_string', 'to_owned', 'from', 'into', 'clone') and len(t.a) == 2:
        t = t.a[1]
    if t.k == 'sym' and str(t.a[0]).startswith('text:'):
        return '$' + str(t.a[0])[5:]
    return t.a[0] if t.k == 'str' else None


def place(s, e):
    if s.k == 'agg' and e.k == 'agg' and all(x.k == 'int' for x in s.a[2:] + e.a[2:]):
        return tuple(x.a[0] for x in s.a[2:]), tuple(x.a[0] for x in e.a[2:])
    return None


def read(y, owner):
    """(name, kind, place, fields) of an object"""
    sel = lambda f: rules.sel(y, (owner, f))
    flags = {}
    for f in ('is_filter', 'is_test'):
        b = sel(f)
        g = b.a[0] if b.k == 'b' else tm.nb(b)
        flags[f] = True if g is TRUE else False if g is FALSE else None
    loc = sel('location')
    pl = place(tm.field(loc, '()', 0, 0), tm.field(loc, '()', 0, 1))
    fs = tm.literal(sel('fields'))
    if fs is None or None in flags.values():
        return None
    fields = []
    for f in fs:
        at = tm.field(f, '()', 0, 1)
        fields.append((plain(tm.field(f, '()', 0, 0)), place(tm.field(at, '()', 0, 0), tm.field(at, '()', 0, 1))))
    kind = {(False, False): V, (True, False): F, (False, True): X}.get((flags['is_filter'], flags['is_test']), 'filter and test')
    return plain(sel('name')), kind, pl, fields


def expected(doc, want):
    """the entries with the places of their tokens"""
    toks = [n for n in doc.root.walk() if n.kind == 'identifier']
    out, i = [], 0

    def nxt(name):
        nonlocal i
        while toks[i].text != name:
            i += 1
        i += 1
        return doc.places[id(toks[i - 1])]
    for name, kind, fields in want:
        pl = nxt(name)
        out.append((name, kind, pl, [(f, nxt(f)) for f in fields]))
    return out


def check(k):
    S = k.server()
    prog = S.prog
    from props import c10
    called = c10.calls(S)
    n = 0
    for key, es in sorted(called.items()):
        h = holder(prog, key)
        if h is None:
            continue
        owner, fi, obj = h
        try:
            x = steps.Extractor(prog, key)
        except steps.Missing as e:
            k.ob('extractor', False, 'the extractor can be analysed', key, str(e))
            continue
        texts = set().union(*(c10.given(S, es).get('jinja2', set()),))
        k.ob('query', bool(texts), 'the extractor is given a built-in query', key)
        for text in sorted(texts):
            try:
                q = query.Query(text)
            except query.Bad as e:
                k.ob('query:read', False, 'the syntax query can be read', key, str(e))
                continue
            for lay, at, wrap in LAYOUTS:
                for name, what, tags, want in SHAPES:
                    n += 1
                    decide(k, x, q, owner, fi, obj, name, what, copies(tags, ''), want, lay, at, wrap)
                for i, (name0, what0, tags0, want0) in enumerate(SHAPES if lay == 'line' else ()):
                    for name, what, tags, want in FOLLOW:
                        n += 1
                        decide(k, x, q, owner, fi, obj, '%s-after-%s' % (name, name0), '%s after %s' % (what, what0), copies(tags0, '0') + copies(tags, ''),
                               [(a + '0' if a[:1] == '$' else a, b, [f + '0' if f[:1] == '$' else f for f in c]) for a, b, c in want0] + want, lay, at, wrap)
    k.floor('shapes', n, 150)


FOLLOW = [s for s in SHAPES if s[0] in ('one', 'tight', 'field', 'filter', 'is', 'string-filter')]


def decide(k, x, q, owner, fi, obj, name, what, tags, want, lay, at, wrap):
    doc = Laid(tags, at, wrap)
    key = '%s:%s' % (lay, name)
    try:
        st = x.run(q.matches(doc.root), doc.names, (), doc.tree, names_differ)
    except (steps.Stopped, query.Bad) as e:
        k.ob(key, False, 'all of %s is looked at' % what, x.key, str(e))
        return
    v = x.settle(x.ended(owner, 0, fi), dict(st), x.closing(x.outer or x.state, st))
    l = tm.literal(v)
    got = [read(y, obj) for y in l] if l is not None else None
    k.ob(key, got is not None and got == expected(doc, want), '%s is read as %s' % (what, ', '.join('.'.join([a] + c) + ' ' + b for a, b, c in want) or 'nothing'), x.key,
         'found %s' % (got if got is not None and None not in got else rules.flat(v, 400)))
