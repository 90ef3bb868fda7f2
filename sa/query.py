"""Tree-sitter query texts: parsing, and matching against the shape of a construct."""
import glob
import json
import os
import re

import lang


class Node(object):
    """a piece of a syntax tree"""

    def __init__(self, kind, *children, **kw):
        self.kind, self.text, self.field, self.children = kind, kw.get('text', ''), kw.get('field'), list(children)

    def walk(self):
        yield self
        for c in self.children:
            for n in c.walk():
                yield n

    def __repr__(self):
        return '(%s %r)' % (self.kind, self.text)


class P(object):
    __slots__ = ('op', 'kind', 'items', 'captures', 'quant', 'field')

    def __init__(self, op, kind=None, items=()):
        self.op, self.kind, self.items, self.captures, self.quant, self.field = op, kind, list(items), [], '', None


class Bad(Exception):
    pass


TOK = re.compile(r'\s+|;[^\n]*|("(?:\\.|[^"\\])*")|([()\[\]])|(@[\w.\-]+)|(#[\w.\-]+[?!])|([?*+](?=[\s()\[\]@]|$))|(![\w\-]+)|([\w.\-]+:)|([\w.\-/]+)|(\.)')


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m or m.end() == i:
            raise Bad('cannot read %r' % text[i:i + 20])
        if m.lastindex:
            out.append(m.group(m.lastindex))
        i = m.end()
    return out


def unquote(s):
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), s[1:-1])


class Query(object):
    def __init__(self, text):
        self.text = text
        self.toks = tokens(text)
        self.i = 0
        self.patterns = []
        while self.i < len(self.toks):
            self.preds = []
            p = self.item()
            if p is not None:
                self.patterns.append((p, self.preds))

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise Bad('unexpected end')
        self.i += 1
        return t

    def item(self):
        t = self.next()
        field = None
        if t.endswith(':') and len(t) > 1:
            field, t = t[:-1], self.next()
        if t == '(':
            n = self.peek()
            if n is not None and n.startswith('#'):
                self.next()
                args = []
                while self.peek() != ')':
                    a = self.next()
                    args.append(('@', a[1:]) if a.startswith('@') else ('s', unquote(a) if a.startswith('"') else a))
                self.next()
                self.preds.append((n[1:], args))
                return None
            if n is not None and re.match(r'^[\w]', n) and not n.endswith(':'):
                p = P('node', self.next())
            else:
                p = P('group')
            while self.peek() != ')':
                q = self.item()
                if q is not None:
                    p.items.append(q)
            self.next()
        elif t == '[':
            p = P('alt')
            while self.peek() != ']':
                q = self.item()
                if q is not None:
                    p.items.append(q)
            self.next()
        elif t.startswith('"'):
            p = P('leaf', unquote(t))
        elif t == '.':
            return P('anchor')
        elif t == '_':
            p = P('node', '_')
        elif t.startswith('!'):
            return P('not', t[1:])
        else:
            raise Bad('unexpected %r' % t)
        p.field = field
        while self.peek() is not None and (self.peek().startswith('@') or self.peek() in ('?', '*', '+')):
            t = self.next()
            if t.startswith('@'):
                p.captures.append(t[1:])
            else:
                p.quant = t
        return p

    # ---- what the query says
    def captures(self):
        out = set()

        def go(p):
            out.update(p.captures)
            for q in p.items:
                go(q)
        for p, _ in self.patterns:
            go(p)
        return out

    def kinds(self):
        out = set()

        def go(p):
            if p.op == 'node':
                out.add(p.kind)
            for q in p.items:
                go(q)
        for p, _ in self.patterns:
            go(p)
        return out

    def fields(self):
        out = set()

        def go(p):
            if p.field:
                out.add(p.field)
            for q in p.items:
                go(q)
        for p, _ in self.patterns:
            go(p)
        return out

    # ---- matching
    def matches(self, root):
        """[(node, pattern index, [(capture, node)])] in the order in which they are complete"""
        out = []
        order = {id(n): i for i, n in enumerate(root.walk())}
        for idx, (p, preds) in enumerate(self.patterns):
            for n in root.walk():
                found = list(self.at(p, n, root))
                best = []
                for c in found:
                    s = {(x, id(y)) for x, y in c}
                    if not any(s < {(x, id(y)) for x, y in d} for d in found) and c not in best:
                        best.append(c)
                out += [(n, idx, c) for c in best if all(holds(q, c) for q in preds)]
        out.sort(key=lambda r: (max([order[id(y)] for _, y in r[2]] or [order[id(r[0])]]), r[1]))
        return out

    def at(self, p, n, root):
        """captures of the pattern when it starts at n"""
        if p.op == 'group':
            if len(p.items) == 1:
                for c in self.at(p.items[0], n, root):
                    yield [(x, n) for x in p.captures] + c
                return
            parent = [q for q in root.walk() if any(x is n for x in q.children)]
            sibs = parent[0].children[[x is n for x in parent[0].children].index(True):] if parent else [n]
            for c, first in self.run(p.items, sibs, root, True):
                if first is n:
                    yield [(x, n) for x in p.captures] + c
            return
        if p.op == 'alt':
            for q in p.items:
                for c in self.at(q, n, root):
                    yield [(x, n) for x in p.captures] + c
            return
        if p.op == 'leaf':
            if n.kind == p.kind:
                yield [(x, n) for x in p.captures]
            return
        if p.op != 'node' or p.kind not in ('_', n.kind) or p.field and n.field != p.field:
            return
        for c, _ in self.run(p.items, n.children, root, False):
            yield [(x, n) for x in p.captures] + c

    def run(self, items, nodes, root, first):
        """(captures, first node used) of the items matched, in order, by some of the nodes"""
        if not items:
            yield [], None
            return
        p, rest = items[0], items[1:]
        if p.op == 'anchor':
            # the next one is the very next node; at the end there is none left
            if rest:
                for r in self.run(rest, nodes, root, True):
                    yield r
            elif not nodes:
                yield [], None
            return
        if p.op == 'not':
            raise Bad('negated fields are not modelled')
        if p.quant in ('?', '*'):
            for r in self.run(rest, nodes, root, first):
                yield r
        for i, n in enumerate(nodes):
            if p.field and n.field != p.field:
                continue
            for c in self.at(p, n, root):
                more = [rest] if p.quant in ('', '?') else [rest, items if p.quant == '*' else [star(p)] + rest]
                for m in more:
                    for d, _ in self.run(m, nodes[i + 1:], root, False):
                        yield c + d, n
            if first:
                break


def star(p):
    q = P(p.op, p.kind, p.items)
    q.captures, q.field, q.quant = p.captures, p.field, '*'
    return q


def name_matches(pattern):
    """does the pattern match a name nothing is known about? (it has to answer the same for all of them)"""
    try:
        a = lang.answers(pattern)
    except lang.Unknown as e:
        raise Bad('the pattern %s is not modelled (%s)' % (pattern, e))
    if len(a) == 1:
        return list(a)[0]
    raise Bad('whether the pattern %s matches depends on how a name is spelled (%s: yes, %s: no)' % (pattern, a[True], a[False]))


def holds(pred, caps):
    name, args = pred
    neg = name.startswith('not-')
    base = name[4:] if neg else name
    if base not in ('eq?', 'match?', 'any-of?'):
        raise Bad('predicate #%s is not modelled' % name)
    ns = [n.text for c, n in caps if args and ('@', c) == args[0]]
    for x in ns:
        if base == 'eq?':
            if args[1][0] == '@':
                r = all(x == n.text for c, n in caps if c == args[1][1])
            else:
                r = x == args[1][1]
        elif base == 'match?' and x[:1] == '$' and len(x) > 1:
            r = name_matches(args[1][1])
        elif base == 'match?':
            r = re.search(args[1][1], x) is not None
        else:
            r = x in [a[1] for a in args[1:]]
        if r == neg:
            return False
    return True


# ------------------------------------------------------------------ is this a query of the language?
class Language(object):
    """node kinds, fields and containment of a tree-sitter grammar, from the description generated with its parser"""

    def __init__(self, path):
        with open(path + '/node-types.json') as f:
            self.types = {(t['type'], t['named']): t for t in json.load(f)}
        with open(path + '/grammar.json') as f:
            g = json.load(f)
        self.extras = {x.get('name') for x in g.get('extras', ())}
        self.inner = {}
        for (n, named), t in self.types.items():
            s = set()
            for kids in [t.get('children')] + list(t.get('fields', {}).values()):
                if kids:
                    for c in kids['types']:
                        s |= self.below(c['type'], c['named'])
            self.inner[(n, named)] = s
        self.fields = {f: [k for k, t in self.types.items() if f in t.get('fields', {})] for t in self.types.values() for f in t.get('fields', {})}

    def below(self, n, named=True):
        t = self.types.get((n, named))
        out = {(n, named)}
        for c in (t or {}).get('subtypes', ()):
            out |= self.below(c['type'], c['named'])
        return out

    def has(self, n):
        return n in ('_', 'ERROR', 'MISSING') or any((n, x) in self.types for x in (True,)) or n in self.extras

    def leaf(self, s):
        return (s, False) in self.types

    def within(self, parent, kind):
        """a node of this kind can be a child of the parent"""
        if kind in ('_', 'ERROR', 'MISSING') or kind in self.extras or parent in (None, '_', 'ERROR'):
            return True
        kinds = self.below(kind)
        return any(kinds & self.inner.get(p, set()) for p in self.below(parent))


SIMPLE = {'eq?': 2, 'not-eq?': 2, 'any-eq?': 2, 'any-not-eq?': 2, 'match?': 2, 'not-match?': 2, 'any-match?': 2, 'any-not-match?': 2}


def problems(text, lang):
    """why this text is not a query of the language, as far as node kinds, fields, containment and predicates tell"""
    try:
        q = Query(text)
    except (Bad, IndexError) as e:
        return ['it is not a well-formed query: %s' % e]
    out = []
    caps = q.captures()

    def go(p, parent, field):
        f = p.field or field
        if p.field:
            if p.field not in lang.fields:
                out.append('there is no field %s' % p.field)
            elif parent not in (None, '_', 'ERROR') and not any(x in lang.fields[p.field] for x in lang.below(parent)):
                out.append('%s has no field %s' % (parent, p.field))
        if p.op == 'node':
            if not lang.has(p.kind):
                out.append('there is no node kind %s' % p.kind)
            elif not lang.within(parent, p.kind):
                out.append('%s is never a child of %s' % (p.kind, parent))
            for x in p.items:
                go(x, p.kind, None)
        elif p.op == 'leaf':
            if not lang.leaf(p.kind):
                out.append('there is no token %r' % p.kind)
        elif p.op == 'not':
            if p.kind not in lang.fields:
                out.append('there is no field %s' % p.kind)
        elif p.op in ('alt', 'group'):
            for x in p.items:
                go(x, parent, f)
    for p, preds in q.patterns:
        go(p, None, None)
        for name, args in preds:
            for k, v in args:
                if k == '@' and v not in caps:
                    out.append('the predicate %s speaks of @%s, which nothing captures' % (name, v))
            if name in SIMPLE and (len(args) != SIMPLE[name] or args[0][0] != '@'):
                out.append('the predicate %s has wrong arguments' % name)
            if 'match' in name and len(args) == 2:
                if args[1][0] != 's':
                    out.append('the predicate %s matches no pattern' % name)
                else:
                    try:
                        re.compile(args[1][1])
                    except re.error as e:
                        out.append('the pattern of %s is malformed: %s' % (name, e))
    return out


def language(name):
    """the grammar of a crate such as tree_sitter_rust, in the version the lock file names"""
    import facts
    crate = name.replace('_', '-')
    with open(os.path.join(facts.REPO, 'Cargo.lock')) as f:
        m = re.search(r'name = "%s"\nversion = "([^"]+)"' % re.escape(crate), f.read())
    if m is None:
        return None
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    for d in sorted(glob.glob('%s/registry/src/*/%s-%s/src' % (home, crate, m.group(1)))):
        if os.path.exists(d + '/node-types.json') and os.path.exists(d + '/grammar.json'):
            return Language(d)
    return None
