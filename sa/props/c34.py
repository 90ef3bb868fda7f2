"""C34: hover and go to definition act on the name the cursor is in."""
import functools
import os
import pickle
import select

import query
import rules
import steps
import terms as tm
from bdd import TRUE, FALSE
from props import c10, c31
from query import Node as N

RULE = ('For shapes of expressions and tags, the transfer functions of the extractor of objects (taken from the MIR; both '
        'loops, over matches and over captures, with only what is at the cursor wanted) are composed along the captures '
        'the syntax query makes, for every place the cursor can have in the text, up to the capture at which its loops '
        'are left.  What the extractor returns then is put into the answers that the handlers of hover and of go to '
        'definition send.  With the cursor in a name or in one of the fields behind it, the answer must be that for a '
        'text that holds nothing but this name in this role (variable, filter or test); everywhere else it must be the '
        'answer for a text without names.')

ASKED = [('Hover', 'hover'), ('GoToDefinition', 'go to definition')]


class At(object):
    """what the extractor makes of a document and a place in it"""

    def __init__(self, prog, key, text):
        self.key = key
        self.x = steps.Extractor(prog, key, exits=True)
        self.x.wanted = False
        self.q = query.Query(text)
        body = prog.bodies[key]
        self.owner = body['crate'].types[body['locals'][0][0]]['p']
        n = len(prog.adts[self.owner]['variants'][0]['f'])
        self.parts = [tm.field(self.x.value, self.owner, 0, i) for i in range(n)]

    def __call__(self, doc, row, col):
        """the result of the extractor when the cursor is here"""
        if not hasattr(doc, 'results'):
            doc.results = {}
        if (row, col) not in doc.results:
            doc.results[row, col] = self.result(doc, row, col)
        return doc.results[row, col]

    def result(self, doc, row, col):
        x = self.x
        x.cursor = tm.agg('pos', 0, tm.I(row), tm.I(col))
        if not hasattr(doc, 'captured'):
            doc.captured = self.q.matches(doc.root)
        ms = doc.captured
        st = x.run(ms, doc.names, {c for m in ms for c, _ in m[2]}, doc.tree, c31.names_differ)
        return tm.agg(self.owner, 0, *x.reached(self.parts, st))


@functools.lru_cache(None)
def nothing():
    return c31.Laid([], (0, 0), False)


@functools.lru_cache(None)
def alone(role, text, place):
    """a text that holds only this name, at this place"""
    row, col = place
    gap = c31.G
    if role == c31.F:
        before = ['$b', gap, '|']
    elif role == c31.X:
        before = ['$b', 'is']
    else:
        before = []
    name = N('identifier', text=text)
    at = row, col - sum(len(t.replace('$', '')) for t in before) - 2 - (2 if role == c31.X else 0)
    if at[1] < 0:
        # the tag begins on the line before
        at = row - 1, 0
        gap = '\n' + ' ' * col
        if before:
            before[-1] += gap if role == c31.F else ''
    doc = c31.Laid([c31.E(c31.G, *before + ([] if role == c31.X and gap == c31.G else [gap] if gap != c31.G and role != c31.F else [c31.G]) + [name])], at, False)
    assert doc.places[id(name)][0] == (row, col), (doc.places[id(name)], place, role)
    return doc


class Asked(object):
    """the answers of the handler of this request, by what the extractor makes of the place"""

    def __init__(self, S, variant, key):
        self.s = S.scene(variant, 'html', True)
        self.rs = rules.replies(S, self.s)
        self.calls = sorted({z for c, v in self.rs for x in [v] + [steps.bdd.ATOMS[a] for a in steps.bdd.sup(c)] for z in tm.subterms(x)
                             if z.k == 'call' and z.a[0] == 'fn:' + key}, key=lambda z: z.id)
        self.fine = len(self.calls) == 1 and len(self.calls[0].a) == 6 and self.calls[0].a[5] in (tm.B(FALSE), tm.B(FALSE))
        self.memo = {}

    def at(self, row, col, result):
        k = row, col, result
        if k not in self.memo:
            p = tm.agg('pos', 0, tm.I(row), tm.I(col))
            m = {self.calls[0]: result, self.calls[0].a[3]: p}
            self.memo[k] = [(rules.rewrite(c, m, None, steps.ends), rules.rewrite(v, m, None, steps.ends)) for c, v in self.rs]
        return self.memo[k]


def inside(doc, want):
    """[(role, name, its place, all places that belong to it)]"""
    return [(role, name, at, [at] + [p for _, p in fields if p[0][0] == p[1][0] == at[0][0]], [p for _, p in fields]) for name, role, at, fields in c31.expected(doc, want)]


# the first and the last of the layouts: one line from the start of the text, and every token on a line of its own
LAYOUTS = [c31.LAYOUTS[0], c31.LAYOUTS[-1]]


def check(k):
    S = k.server()
    prog = S.prog
    n = 0
    for key, es in sorted(c10.calls(S).items()):
        if c31.holder(prog, key) is None:
            continue
        asked = []
        for variant, what in ASKED:
            a = Asked(S, variant, key)
            k.ob('%s:asks' % variant, a.fine, 'the answer to %s depends on what is at the cursor' % what, key, '%d uses of what is there' % len(a.calls))
            if a.fine:
                asked.append((variant, what, a))
        for text in sorted(c10.given(S, es).get('jinja2', set())):
            try:
                x = At(prog, key, text)
            except (query.Bad, steps.Missing) as e:
                k.ob('query:read', False, 'what is at the cursor can be analysed', key, str(e))
                continue
            for out in spread(c31.SHAPES, lambda shape: list(places(x, asked, *shape))):
                for name, what, asked_, bad, m in out:
                    n += m
                    k.ob(name, not bad, '%s in %s acts on the name the cursor is in' % (asked_, what), key, 'at %s' % ', '.join(bad))
    k.floor('places', n, 2000)


def spread(jobs, f, procs=6, batch=4):
    """f of every job: batches are done in processes of their own, and what one cannot finish is done once more, alone"""
    out, left = {}, [range(i, min(i + batch, len(jobs))) for i in range(0, len(jobs), batch)]
    for n in (procs, 1):
        todo, left, running = left, [], []
        while todo or running:
            while todo and len(running) < n:
                running.append((todo[0], *start(jobs, f, todo[0])))
                todo = todo[1:]
            r = select.select([r for _, _, r in running], [], [])[0][0]
            part, pid, _ = [x for x in running if x[2] == r][0]
            running = [x for x in running if x[2] != r]
            with os.fdopen(r, 'rb') as h:
                data = h.read()
            if os.waitpid(pid, 0)[1] == 0:
                out.update(zip(part, pickle.loads(data)))
            else:
                left.append(part)
    if left:
        raise rules.Missing('an analysis of the places %s' % ', '.join(str(i) for part in left for i in part))
    return [out[i] for i in range(len(jobs))]


def start(jobs, f, part):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as out:
                pickle.dump([f(jobs[i]) for i in part], out)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(1)
    os.close(w)
    return pid, r


def places(x, asked, name, what, tags, want):
    """(key, what, request, places where the answer is a wrong one, number of places)"""
    want = [(a + 'xx' if a[:1] == '$' else a, b, [f + 'xx' if f[:1] == '$' else f for f in c]) for a, b, c in want]
    for lay, at, wrap in LAYOUTS:
        doc = c31.Laid(c31.copies(tags, 'xx'), at, wrap)
        for w, ww, a in asked:
            bad, n = decide(x, a, doc, want)
            yield '%s:%s:%s' % (w, lay, name), what, ww, bad, n


def decide(x, a, doc, want):
    objs = inside(doc, want)
    rows = {}
    for s, e in doc.places.values():
        for r, c in (s, e):
            rows.setdefault(r, []).append(c)
    n = 0
    bad = []
    for row in sorted(rows):
        for col in range(min(rows[row]), max(rows[row]) + 3):
            p = row, col
            at = [o for o in objs if any(s <= p <= e for s, e in o[3])]
            if not at and any(s <= p <= e for o in objs for s, e in o[4]) or len(at) > 1:
                continue
            if not at and any(o[2][0] <= p <= o[4][-1][1] for o in objs if o[4]):
                # white space between a name and its fields
                continue
            n += 1
            try:
                got = a.at(row, col, x(doc, row, col))
                if at:
                    role, name, (s, e), own, _ = at[0]
                    wide = name + 'x' * (own[-1][1][1] - e[1])
                    exp = a.at(row, col, x(alone(role, wide, s), row, col))
                    m = {tm.sym('text:' + wide[1:]): tm.sym('text:' + name[1:])} if wide[:1] == '$' else {tm.S(wide): tm.S(name)}
                    exp = [(rules.rewrite(c, m, None, steps.ends), rules.rewrite(v, m, None, steps.ends)) for c, v in exp]
                else:
                    exp = a.at(row, col, x(nothing(), row, col))
            except (steps.Stopped, query.Bad) as e:
                bad.append('%d:%d %s' % (row, col, str(e)[:200]))
                continue
            if got != exp:
                bad.append('%d:%d, %s' % (row, col, 'in the %s %s' % at[0][:2] if at else 'in no name'))
    return bad, n
