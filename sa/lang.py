"""Regular expressions over names: does a pattern answer the same for every name?

The pattern is turned into a nondeterministic automaton, which is run in step with the automaton of names ([^\\W\\d]\\w*) over
one representative of every class of characters the pattern tells apart; the answer is exact for all names of any length."""
import functools
import re
import re._parser as rp
import re._constants as rc


class Unknown(Exception):
    pass


class Auto(object):
    """edges: (from, test, to); test is None (nothing read), 'start' or 'end' (nothing read, only there) or a set of characters"""

    def __init__(self, pattern):
        self.n = 0
        self.edges = []
        try:
            tree = rp.parse(pattern)
        except re.error as e:
            raise Unknown(str(e))
        if tree.state.flags & ~re.UNICODE:
            raise Unknown('flags')
        self.chars = set('aZ_0é ')
        self.mentioned(tree)
        self.start = self.new()
        self.end = self.seq(tree, self.start)

    def new(self):
        self.n += 1
        return self.n - 1

    def edge(self, a, test, b):
        self.edges.append((a, test, b))

    def mentioned(self, tree):
        stack = [tree]
        while stack:
            x = stack.pop()
            if isinstance(x, rp.SubPattern):
                stack.extend(x.data)
            elif isinstance(x, (tuple, list)):
                if len(x) == 2 and x[0] in (rc.LITERAL, rc.NOT_LITERAL) and isinstance(x[1], int):
                    self.chars.update(chr(x[1]))
                elif len(x) == 2 and x[0] is rc.RANGE:
                    lo, hi = x[1]
                    self.chars.update(chr(c) for c in (lo - 1, lo, hi, hi + 1) if 0 <= c < 0x110000)
                else:
                    stack.extend(x)

    def members(self, items):
        neg, out = False, set()
        for op, v in items:
            if op is rc.NEGATE:
                neg = True
            elif op is rc.LITERAL:
                out.add(chr(v))
            elif op is rc.RANGE:
                out |= {c for c in self.chars if v[0] <= ord(c) <= v[1]}
            elif op is rc.CATEGORY:
                out |= self.category(v)
            else:
                raise Unknown(str(op))
        return frozenset(self.chars - out if neg else out & self.chars)

    def category(self, v):
        n = str(v)
        p = {'DIGIT': r'\d', 'SPACE': r'\s', 'WORD': r'\w'}.get(n.split('_')[-1])
        if p is None:
            raise Unknown(n)
        s = {c for c in self.chars if re.match(p, c)}
        return self.chars - s if 'NOT' in n else s

    def seq(self, items, a):
        for op, v in items:
            a = self.one(op, v, a)
        return a

    def one(self, op, v, a):
        b = self.new()
        if op is rc.LITERAL:
            self.edge(a, frozenset(chr(v)), b)
        elif op is rc.NOT_LITERAL:
            self.edge(a, frozenset(self.chars - {chr(v)}), b)
        elif op is rc.ANY:
            self.edge(a, frozenset(self.chars - {'\n'}), b)
        elif op is rc.IN:
            self.edge(a, self.members(v), b)
        elif op is rc.AT:
            if v in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
                self.edge(a, 'start', b)
            elif v in (rc.AT_END, rc.AT_END_STRING):
                self.edge(a, 'end', b)
            else:
                raise Unknown(str(v))
        elif op is rc.SUBPATTERN:
            if v[1] or v[2]:
                raise Unknown('flags')
            self.edge(self.seq(v[3], a), None, b)
        elif op is rc.BRANCH:
            for x in v[1]:
                self.edge(self.seq(x, a), None, b)
        elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
            lo, hi, x = v
            for i in range(lo):
                a = self.seq(x, a)
            if hi is rc.MAXREPEAT:
                c = self.seq(x, a)
                self.edge(c, None, a)
                self.edge(a, None, b)
            else:
                self.edge(a, None, b)
                for i in range(hi - lo):
                    a = self.seq(x, a)
                    self.edge(a, None, b)
        else:
            raise Unknown(str(op))
        return b

    def close(self, s, first, last):
        s, stack = set(s), list(s)
        while stack:
            a = stack.pop()
            for x, t, b in self.edges:
                if x == a and b not in s and (t is None or t == 'start' and first or t == 'end' and last):
                    s.add(b)
                    stack.append(b)
        return frozenset(s)

    def answers(self):
        """{whether the pattern is found in a name: an example of such a name}"""
        out = {}
        seen = {(frozenset(), True)}
        todo = [('', frozenset(), False)]
        while todo:
            word, s, hit = todo.pop(0)
            here = self.close(s | {self.start}, not word, False)
            hit = hit or self.end in here
            if word:
                out.setdefault(hit or self.end in self.close(here, False, True), word)
            for c in sorted(self.chars, key=lambda c: (not c.isalpha(), c)):
                if not re.match(r'\w' if word else r'[^\W\d]', c):
                    continue
                to = frozenset(b for a, t, b in self.edges if a in here and isinstance(t, frozenset) and c in t)
                if (to, hit) not in seen:
                    seen.add((to, hit))
                    todo.append((word + c, to, hit))
        return out


@functools.lru_cache(None)
def answers(pattern):
    return Auto(pattern).answers()
