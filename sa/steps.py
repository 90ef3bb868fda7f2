"""What an extractor does with a capture: the transfer function of its loop over the captures of a query, and the
composition of transfer functions along the captures a construct yields."""
import bdd
import ev
import models
import rules
import terms as tm
from bdd import TRUE, FALSE, ATOMS, sup


class Missing(Exception):
    pass


class Stopped(Exception):
    """the loop over the captures ends before the last one"""


def same_node(u):
    """nodes are told apart by their identity"""
    if u.k != 'eq':
        return None
    a, b = [y.a[1] if y.k == 'call' and str(y.a[0]).endswith('Node::id') and y.a[1].k == 'sym' else y for y in u.a[:2]]
    if a.k == 'sym' and b.k == 'sym' and str(a.a[0]).startswith('node:') and str(b.a[0]).startswith('node:'):
        return a is b
    if 'int' in (a.k, b.k) and any(y.k == 'sym' and str(y.a[0]).startswith('node:') for y in (a, b)):
        return False
    return None


def named(u):
    """asks whether the text of a name is empty"""
    return u.k == 'empty' and u.a[0].k in ('sym', 'call') and any(x.k == 'sym' and str(x.a[0]).startswith('text:') for x in tm.subterms(u.a[0]))


def is_text(t):
    return t.k == 'sym' and str(t.a[0]).startswith('text:')


def of_name(t, part):
    """t is a name, and part contains what no name does"""
    return is_text(t) and part.k == 'str' and any(not (c.isalnum() or c == '_') for c in part.a[0])


def letter(t):
    """one of the characters of a name"""
    return t.k in ('call', 'elem') and any(x.k == 'call' and x.a[0] == 'chars' and is_text(x.a[1]) for x in tm.subterms(t))


def told(u):
    """what a question about given texts is answered"""
    if u.k == 'eq' and any(a.k == 'str' and len(a.a[0]) == 1 and not (a.a[0].isalnum() or a.a[0] == '_') and letter(b) for a, b in (u.a[:2], u.a[1::-1])):
        return False
    if u.k == 'call' and len(u.a) == 3 and of_name(u.a[1], u.a[2]) and str(u.a[0]).split('::')[-1] in ('starts_with', 'ends_with', 'contains'):
        return False
    if u.k != 'call' or len(u.a) != 3 or u.a[1].k != 'str':
        return None
    if u.a[0] == 'inside_char' and u.a[2].k == 'int' and 0 <= u.a[2].a[0] <= len(u.a[1].a[0].encode()):
        return piece(u.a[1].a[0], tm.agg('RangeTo', 0, u.a[2])) is None
    f = str(u.a[0]).split('::')[-1]
    if f not in ('starts_with', 'ends_with', 'contains'):
        return None
    l = [u.a[2]] if u.a[2].k == 'str' else tm.literal(u.a[2])
    if not l or any(x.k != 'str' for x in l):
        return None
    s = u.a[1].a[0]
    return any({'starts_with': s.startswith, 'ends_with': s.endswith, 'contains': s.__contains__}[f](x.a[0]) for x in l)


def given(t):
    """what a function makes of given texts"""
    f = str(t.a[0]).split('::')[-1]
    s, l = t.a[1].a[0], [x.a[0] for x in t.a[2:] if x.k == 'str']
    if len(l) != len(t.a) - 2:
        return t
    if f in ('trim', 'trim_start', 'trim_end') and not l:
        return tm.S({'trim': s.strip, 'trim_start': s.lstrip, 'trim_end': s.rstrip}[f]())
    if f in ('strip_prefix', 'strip_suffix') and len(l) == 1:
        r = s.removeprefix(l[0]) if f == 'strip_prefix' else s.removesuffix(l[0])
        return tm.some(tm.S(r)) if r != s or not l[0] else NONE
    if f in ('find', 'rfind') and len(l) == 1:
        i = getattr(s, f)(l[0])
        return tm.some(tm.I(len(s[:i].encode()))) if i >= 0 else NONE
    if f in ('split_once', 'rsplit_once') and len(l) == 1 and l[0]:
        i = s.find(l[0]) if f[0] == 's' else s.rfind(l[0])
        return tm.some(tm.tup(tm.S(s[:i]), tm.S(s[i + len(l[0]):]))) if i >= 0 else NONE
    if f == 'chars' and not l:
        return tm.ones([tm.S(c) for c in s])
    if f == 'len_utf8' and not l and len(s) == 1:
        return tm.I(len(s.encode()))
    if f == 'bytes' and not l:
        return tm.ones([tm.I(c) for c in s.encode()])
    if f == 'lines' and not l:
        return tm.ones([tm.S(c.removesuffix('\r')) for c in s.removesuffix('\n').split('\n')] if s else [])
    if f == 'split_whitespace' and not l:
        return tm.ones([tm.S(c) for c in s.split()])
    if f in ('split', 'rsplit') and len(l) == 1 and l[0]:
        return tm.ones([tm.S(c) for c in s.split(l[0])[::1 if f[0] == 's' else -1]])
    if f in ('matches', 'rmatches') and len(l) == 1 and l[0]:
        return tm.ones([tm.S(l[0])] * s.count(l[0]))
    return t


def piece(s, r):
    """the part of a given text in a range of bytes"""
    n = r.a[0].rsplit('::', 1)[-1] if r.k == 'agg' else ''
    b = s.encode()
    lo, hi = {'Range': (2, 3), 'RangeFrom': (2, None), 'RangeTo': (None, 2), 'RangeFull': (None, None)}.get(n, (0, 0))
    if lo == 0:
        return None
    lo, hi = [d if i is None else r.a[i].a[0] if r.a[i].k == 'int' else None for i, d in ((lo, 0), (hi, len(b)))]
    if lo is None or hi is None or not 0 <= lo <= hi <= len(b):
        return None
    try:
        return tm.S(b[lo:hi].decode())
    except UnicodeDecodeError:
        return None


def part_of(t):
    """what a function makes of a known list"""
    l = tm.literal(t.a[1])
    f = str(t.a[0]).split('::')[-1]
    if l is None:
        return t
    if f in ('first', 'last') and l and len(t.a) == 2:
        return l[0 if f == 'first' else -1]
    if f in ('skip', 'take') and len(t.a) == 3 and t.a[2].k == 'int':
        return tm.ones(l[t.a[2].a[0]:] if f == 'skip' else l[:t.a[2].a[0]])
    return t


class Tree(object):
    """a syntax tree: what nodes are called, their neighbours and, when it is laid out, their places"""

    def __init__(self, root, names, places=None):
        self.names = names
        self.places = places
        self.known = {}
        self.nodes = {'node:' + names[id(n)]: n for n in root.walk()}
        self.up = {id(c): n for n in root.walk() for c in n.children}

    def sym(self, n):
        return tm.some(tm.sym('node:' + self.names[id(n)])) if n is not None else NONE

    def beside(self, n, d):
        p = self.up.get(id(n))
        if p is None:
            return None
        i = [c is n for c in p.children].index(True) + d
        return p.children[i] if 0 <= i < len(p.children) else None

    def walked(self, t):
        """the node a cursor is at"""
        if t.k != 'call':
            return None
        f = str(t.a[0])
        if f == 'Node::walk':
            return self.nodes.get(t.a[1].a[0]) if t.a[1].k == 'sym' else None
        n = self.walked(t.a[1]) if f.startswith('goto_') else None
        if n is None:
            return None
        to = n.children[0 if f == 'goto_first_child' else -1] if f in ('goto_first_child', 'goto_last_child') and n.children else \
            self.beside(n, 1) if f == 'goto_next_sibling' else self.up.get(id(n)) if f == 'goto_parent' else None
        return to if to is not None else n

    def text(self, n):
        return tm.S(n.text) if n.text[:1] != '$' else tm.sym('text:' + n.text[1:])

    def fold(self, t):
        if t.k != 'call' or len(t.a) < 2:
            return t
        x = t.a[1]
        if x.k == 'seq':
            return part_of(t)
        if x.k == 'str' and len(t.a) == 3 and t.a[0] == 'slice_of':
            return piece(x.a[0], t.a[2]) or t
        if x.k == 'str':
            return given(t)
        if is_text(x):
            f = str(t.a[0]).split('::')[-1]
            if f in ('trim', 'trim_start', 'trim_end') and len(t.a) == 2:
                return x
            if f in ('strip_prefix', 'strip_suffix', 'find', 'rfind') and len(t.a) == 3 and of_name(x, t.a[2]):
                return NONE
            return t
        if x.k == 'gv':
            return tm.mapgv(lambda y: self.fold(tm.mk('call', t.a[0], y, *t.a[2:])), x)
        if str(t.a[0]).split('::')[-1] in ('node', 'can_goto_first_child', 'can_goto_last_child', 'can_goto_next_sibling', 'can_goto_parent'):
            n = self.walked(x if t.a[0] == 'TreeCursor::node' else tm.mk('call', t.a[0][4:], x))
            if n is None or t.a[0] == 'TreeCursor::node':
                return t if n is None else self.sym(n).a[2]
            return tm.I(n is not self.walked(x))
        n = self.nodes.get(x.a[0]) if x.k == 'sym' else None
        if n is None:
            return t
        f = str(t.a[0])
        if f == 'node_text' and not n.children:
            return self.text(n)
        if f.startswith('Node::'):
            f = f[6:]
            if f == 'kind':
                return tm.S(n.kind)
            if f in ('prev_sibling', 'next_sibling'):
                return self.sym(self.beside(n, 1 if f[0] == 'n' else -1))
            if f == 'parent':
                return self.sym(self.up.get(id(n)))
            if f == 'child' and len(t.a) == 3 and t.a[2].k == 'int':
                i = t.a[2].a[0]
                return self.sym(n.children[i] if 0 <= i < len(n.children) else None)
            if f == 'child_count':
                return tm.I(len(n.children))
            if self.places and f in ('start_position', 'end_position'):
                return tm.agg('pos', 0, *[tm.I(i) for i in self.places[id(n)][f[0] == 'e']])
        return t


NONE = tm.agg(tm.OPT, 0)
ALL = tm.sym('all')
CURSOR = tm.sym('cursor')
LEFT = tm.sym('left')


class Extractor(object):
    tree = None
    # is everything wanted? if not, what is at this place
    wanted = True
    cursor = None

    def ends(self, t):
        t = ends(t)
        return self.tree.fold(t) if self.tree else t

    def __init__(self, prog, key, exits=False):
        self.key = key
        a = self.a = ev.Analysis(prog, models)
        if exits:
            # what is returned as a function of the state and the capture the loop over captures ends at
            a.left = lambda bs: bdd.atom(tm.mk("bool", LEFT)) if is_capture(bs[-1]) or is_match(bs[-1]) else None
        a.ctx = (('extractor', key),)
        body = prog.bodies[key]
        tys = [body['crate'].types[body['locals'][i + 1][0]] for i in range(body['argc'])]
        flags = [i for i, t in enumerate(tys) if t['s'] == 'bool']
        points = [i for i, t in enumerate(tys) if str(t.get('p')).endswith('Point')]
        # the one flag says whether everything is wanted, the one place where the cursor is, whatever they are called
        self.value, self.cond, self.st = a.entry(key, [ALL if [i] == flags else CURSOR if [i] == points else None for i in range(len(tys))])
        self.state = {}
        self.caps = set()
        self.stops = []
        self.by_name = {}
        self.by_loop = {}
        self.by_part = {}
        self.memo_end = {}
        # the loop over matches around the loop over captures, if there is one
        self.outer = {}
        self.matches = set()
        for lv, (init, step, bs) in a.lvinfo.items():
            if not bs:
                continue
            b = bs[-1]
            if isinstance(lv.a[1], tuple) and lv.a[1][0] == 'acc':
                continue
            if is_match(b):
                self.outer[lv] = (init, step)
                self.matches.add(b)
                continue
            if is_capture(b):
                self.state[lv] = (init, step)
                self.caps.add(b)
        # what ends the loop before the last capture
        for bs, g in a.leaves.values():
            if is_capture(bs[-1]) and g is not FALSE:
                self.stops.append(g)
                self.caps.add(bs[-1])
        self.flat = self.flattened() if self.outer else {}

    def flattened(self):
        """the state of the loop over captures that the loop over matches hands on unchanged from match to match, if that
        is all it does"""
        m = {}
        for lv, step in self.after_match().items():
            if step not in self.state or self.state[step][0] is not lv:
                return {}
            m[lv] = step
        return m if set(m.values()) == set(self.state) else {}

    def names(self):
        """capture names the extractor tells apart"""
        out = set()
        for t in self.all():
            if t.k == 'eq':
                for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if x.k == 'str' and is_name(y):
                        out.add(x.a[0])
        return out

    def all(self):
        if not hasattr(self, '_all'):
            out = set(tm.subterms(self.value))
            for lv, (init, step) in self.state.items():
                out.update(tm.subterms(init))
                out.update(tm.subterms(step))
            for t in self.stops:
                out.update(tm.subterms(t))
            self._all = out
        return self._all

    def handles(self):
        """the terms for the name and the node of a capture"""
        if not hasattr(self, '_handles'):
            self._handles = [(t, t.k == 'f') for t in self.all() if is_name(t) and t.k == 'call'
                             or t.k == 'f' and t.a[0] in self.caps and t.a[1].split('::')[-1] == 'QueryCapture' and tm.FN[t.a[1]][0][t.a[3]] == 'node']
        return self._handles

    def start(self):
        """the state before the first capture"""
        return {lv: init for lv, (init, step) in self.state.items()}

    def step(self, state, name, text, ident, fix=None):
        """the state after one more capture: its name, its text (a term), and what its node is called"""
        if self.cursor is not None:
            steps, stops, memo = self.here(name, text, ident, fix)
            at = self.then(state, fix)
            return {lv: state[lv] if step is lv else at(step) for lv, step in steps.items()}
        at = self.reader(state, name, text, ident, fix)
        return {lv: state[lv] if step is lv else at(step) for lv, step in self.named_step(name)[0].items()}

    def here(self, name, text, ident, fix):
        """the transfer function at this capture of the tree, and when it ends the loop, wherever the cursor is"""
        k = name, ident
        if k not in self.tree.known:
            cursor, self.cursor = self.cursor, None
            at = self.reader({}, name, text, ident, fix)
            named, stops = self.named_step(name)
            self.tree.known[k] = {lv: step if step is lv else at(step) for lv, step in named.items()}, [at(g) for g in stops], {}
            self.cursor = cursor
        return self.tree.known[k]

    def then(self, state, fix):
        """terms over the state and the place of the cursor"""
        m = {**state, CURSOR: self.cursor}
        memo, memo2 = {}, {}
        known = self.assumed(fix)
        return lambda x: rules.assume_by(rules.rewrite(x, m, memo, self.ends), known, memo2, self.ends)

    def named_step(self, name):
        """the transfer function for captures of this name, and when it ends the loop"""
        if name not in self.by_name:
            m = {t: tm.S(name) for t, is_node in self.handles() if not is_node}

            def known(t):
                u = t.a[0] if t.k == 'bool' else t
                return self.wanted if u is ALL else False if u.k == 'call' and u.a[0] == 'bad_node_text' else None
            memo, memo2 = {}, {}

            def at(x):
                return rules.assume_by(rules.rewrite(x, m, memo2, ends), known, memo, ends)
            self.by_name[name] = {lv: at(step if isinstance(step, tm.T) else tm.B(step)) for lv, (init, step) in self.state.items()}, [at(g) for g in self.stops]
        return self.by_name[name]

    def reader(self, state, name, text, ident, fix=None):
        """terms over the state and the capture as they are when this capture is looked at"""
        node = tm.sym('node:' + ident)
        m = dict(state)
        if self.cursor is not None:
            m[CURSOR] = self.cursor
        for t, is_node in self.handles():
            m[t] = node if is_node else tm.S(name)
        memo, memo2 = {}, {}
        known = self.assumed(fix)

        def at(x):
            x = rules.rewrite(x, m, memo, self.ends)
            tx = {t: text for t in tm.subterms(x) if t.k == 'call' and t.a[0] == 'node_text' and t.a[1] is node}
            x = rules.rewrite(x, tx, None, self.ends)
            x = rules.assume_by(x, known, memo2, self.ends)
            run = self.rounds(x, state, lambda more: self.reader({**state, **more}, name, text, ident, fix))
            return rules.assume_by(rules.rewrite(x, run, None, self.ends), known, memo2, self.ends) if run else x
        return at

    def rounds(self, x, state, reader):
        """what the loops inside the loop over captures leave behind, where what they go over is known"""
        out = {}
        for lv in sorted((t for t in tm.subterms(x, binders=False) if t.k == 'lv' and t in self.inside() and t not in state), key=lambda t: t.id):
            if lv not in out:
                out.update(self.rolled(self.inside()[lv], reader))
        return out

    def inside(self):
        """for values carried by loops inside the loop over captures, which are never left early: the element"""
        if not hasattr(self, '_inside'):
            whole = {bs[-1] for bs, g in self.a.leaves.values() if g is FALSE}
            self._inside = {lv: bs[-1] for lv, (init, step, bs) in self.a.lvinfo.items() if bs and len(bs) == 1 and bs[-1].k == 'elem' and bs[-1] in whole
                            and not is_capture(bs[-1]) and not is_match(bs[-1]) and lv not in self.state and lv not in self.outer}
        return self._inside

    def rolled(self, b, reader):
        first = reader({})
        l = tm.literal(first(b.a[0]))
        if l is None or len(l) > 64:
            return {}
        loop = {lv: self.a.lvinfo[lv] for lv in self.inside() if self.inside()[lv] is b}
        cur = {lv: first(init) for lv, (init, step, bs) in loop.items()}
        for i, v in enumerate(l):
            at = reader({**cur, b: v, tm.mk('call', 'index_of', b): tm.I(i)})
            cur = {lv: at(step if isinstance(step, tm.T) else tm.B(step)) for lv, (init, step, bs) in loop.items()}
        return cur

    def assumed(self, fix):
        """what is known about any capture"""
        def known(t):
            u = t.a[0] if t.k == 'bool' else t
            if u is ALL:
                return self.wanted
            if u.k == 'call' and u.a[0] == 'bad_node_text':
                return False
            if named(u):
                return False
            r = same_node(u)
            if r is None:
                r = told(u)
            if r is not None:
                return r
            return fix(t) if fix else None
        return known

    stopped = None

    def run(self, matches, names, until=(), tree=None, fix=None):
        """the state after the captures of the matches; names: what nodes are called; until: names of captures the loop
        may end at"""
        st = self.start()
        self.stopped = None
        self.tree = tree
        self.count = len(matches)
        out = {lv: init for lv, (init, step) in self.outer.items()}
        one = not self.outer or bool(self.flat)
        if self.flat:
            st = {inner: self.outer[lv][0] for lv, inner in self.flat.items()}
        for _, _, caps in matches:
            if not one:
                st = {lv: rules.rewrite(init, out, None, self.ends) for lv, (init, step) in self.state.items()}
            for c, n in caps:
                text = tm.S(n.text) if n.text[:1] != '$' else tm.sym('text:' + n.text[1:])
                if self.cursor is not None:
                    at, stops = self.then(st, fix), self.here(c, text, names[id(n)], fix)[1]
                else:
                    at, stops = self.reader(st, c, text, names[id(n)], fix), self.named_step(c)[1]
                for g in stops:
                    if c in until and at(g) is TRUE and one:
                        self.stopped = (c, text, names[id(n)], fix)
                        return self.both(st)
                    if at(g) is not FALSE:
                        raise Stopped('at capture %s: %s' % (c, tm.shown(at(g), 3)[:300]))
                st = self.step(st, c, text, names[id(n)], fix)
            if not one:
                env = dict(out)
                env.update(st)
                out = {lv: st[step] if step in st else out[lv] if step is lv else self.settle(step, env) for lv, step in self.after_match().items()}
        return self.both(st) if one else out

    def both(self, st):
        """the state by the names it has in either loop"""
        st = dict(st)
        for lv, inner in self.flat.items():
            st[lv] = st[inner]
        return st

    def closing(self, loop, state):
        """what a loop leaves behind, by the terms the analysis has for it"""
        m = {t: (None, state[lv], None) for lv, t in self.closed(loop).items()}
        for t in list(m):
            u = self.to_end(t)
            if u.k not in ('lv', 'agg', 'int', 'emap') and u.a:
                m.setdefault(u, m[t])
        return m

    def to_end(self, x):
        return x if self.stopped else rules.assume_by(x, self.at_end, self.memo_end, ends)

    def closed(self, loop):
        k = id(loop)
        if k not in self.by_loop:
            closed = {lv: self.a.close(lv, init, step, self.a.lvinfo[lv][2]) for lv, (init, step) in loop.items()}
            self.by_loop[k] = {lv: t for lv, t in closed.items() if t.k not in ('lv', 'agg', 'int', 'emap') and t.a}
        return self.by_loop[k]

    def after_match(self):
        """what the loop over matches makes of the state its loop over captures leaves behind"""
        if not hasattr(self, '_after'):
            memo = {}
            on = lambda z: rules.assume_by(z, self.at_end, memo, ends)
            inner = {}
            for lv, t in self.closed(self.state).items():
                inner[t] = lv
                inner[on(t)] = lv
            self._after = {}
            for lv, (init, step) in self.outer.items():
                self._after[lv] = rules.rewrite(on(step if isinstance(step, tm.T) else tm.B(step)), inner, {}, ends)
        return self._after

    def near(self, g):
        """g as far as it is about the capture itself"""
        g = rules.assume_by(g, lambda t: self.wanted if (t.a[0] if t.k == 'bool' else t) is ALL else None, {}, ends)
        return bdd.forget(g, [v for v in bdd.sup(g) if not any(b in self.caps for b in tm.subterms(bdd.ATOMS[v]))])

    def leaving(self):
        if not hasattr(self, '_leaving'):
            self._leaving = [self.near(g) for g in self.stops]
        return self._leaving

    def result(self, f, state):
        """this part of what the extractor returns when its loop over captures ends in this state"""
        return self.settle(self.ended(f.a[1], f.a[2], f.a[3]), dict(state), self.closing(self.outer or self.state, state))

    def ended(self, owner, vi, i):
        """this part of what is returned when the loop over captures runs to its end"""
        k = owner, vi, i, bool(self.stopped)
        if k not in self.by_part:
            v = tm.field(self.value, owner, vi, i)
            if not self.stopped:
                loop = self.outer or self.state
                memo = {}
                on = lambda z: rules.assume_by(z, self.at_end, memo, ends)
                m = {}
                for lv, t in self.closed(loop).items():
                    m[t] = lv
                    if on(t).k not in ('lv', 'agg', 'int', 'emap') and on(t).a:
                        m[on(t)] = lv
                v = rules.rewrite(on(rules.rewrite(v, m, None, ends)), m, None, ends)
            self.by_part[k] = v
        return self.by_part[k]

    def at_end(self, t):
        if t.k == 'bool' and t.a[0] is LEFT:
            return False
        if t.k == 'exists' and any(b in self.caps for b in t.a[0]) and any(rules.implies(self.near(t.a[1]), g) for g in self.leaving()):
            return False
        if t.k == 'exists' and len(t.a[0]) == 1 and t.a[0][0] in self.matches and self.stops:
            g = rules.assume_by(tm.B(t.a[1]), self.at_end, {}, ends)
            return False if (g.a[0] if g.k == 'b' else g) is FALSE else None
        return self.wanted if (t.a[0] if t.k == 'bool' else t) is ALL else None

    def settle(self, x, env, inner={}):
        """x with every loop in it run over the known parts of what it goes over"""
        def known(t):
            if t.k == 'exists' and any(b in self.caps for b in t.a[0]) and any(rules.implies(self.near(t.a[1]), g) for g in self.leaving()):
                if not self.stopped:
                    return False
                # of several reasons to end the loop, those that apply to the capture it ended at
                g = self.reader(env, *self.stopped)(tm.B(t.a[1]))
                g = g.a[0] if g.k == 'b' else g
                return g is TRUE if g is TRUE or g is FALSE else True
            if t.k == 'exists' and len(t.a[0]) == 1 and t.a[0][0] in self.matches:
                g = rules.assume_by(tm.B(t.a[1]), known, {}, self.ends)
                g = g.a[0] if g.k == 'b' else g
                if g is FALSE or g is TRUE:
                    return g is TRUE and self.count > 0
            u = t.a[0] if t.k == 'bool' else t
            if u.k == 'empty' and self.stopped and any(b.a[0] is u.a[0] for b in self.caps):
                return False
            return self.wanted if u is ALL else same_node(u)
        if inner:
            x = self.within(self.to_end(x), inner)
        if self.stopped:
            # the capture that was found to end the loop is the one it ended at
            for bs in (self.matches, self.caps):
                x = rules.rewrite(x, {t: t.a[2] for t in tm.subterms(x) if t.k == 'find' and t.a[2] in bs}, None, ends)
            x = self.reader({}, *self.stopped)(x)
        x = rules.assume_by(x, known, {}, self.ends)
        if self.cursor is not None:
            x = rules.rewrite(x, {CURSOR: self.cursor}, None, self.ends)
        seen = dict(env)
        for lv in sorted((t for t in tm.subterms(x, binders=False) if t.k == 'lv' and t not in env and t in self.a.lvinfo), key=lambda t: t.id):
            seen[lv] = self.loop(lv, env, inner)
        return rules.assume_by(rules.rewrite(x, seen, None, self.ends), known, {}, self.ends)

    def loop(self, lv, env, inner):
        init, step, bs = self.a.lvinfo[lv]
        if not bs or len(bs) != 1 or bs[0].k != 'elem':
            return lv
        b = bs[0]
        cur = self.settle(init, env, inner)
        own = None
        for i in range(64):
            # what the loops around this one hold may be what this one changes
            now = dict(inner)
            for o, (j, v, place) in inner.items():
                if o.k == 'elem' and place == lv.a[1:] and tm.literal(cur):
                    now[o] = (j, tm.literal(cur)[j], place)
            src = self.settle(b.a[0], env, now)
            if i == 0:
                own = src is cur
            l = tm.literal(cur if own else src)
            if l is None:
                return lv
            if i >= len(l):
                return cur
            now[lv] = (None, cur, None)
            now[b] = (i, l[i], lv.a[1:] if own else None)
            cur = self.settle(step, env, now)
        return lv

    def within(self, x, inner):
        """x in one round of the loops around it"""
        m = {}
        back = {}
        at = {}
        for o, (i, v, place) in inner.items():
            if o.k == 'elem':
                # the element is both a value and a place in its sequence
                t = tm.sym('@%d' % o.id)
                back[t] = v
                at[t] = tm.I(i)
                for b in (o, self.to_end(o)):
                    m[b] = t
                    m[tm.mk('call', 'index_of', b)] = at[t]
            else:
                m[o] = v

        def post(t):
            if t.k == 'call' and t.a[0] == 'upd_e' and t.a[2] in at:
                t = tm.mk('call', 'upd_i', t.a[1], at[t.a[2]], t.a[3])
            return self.ends(t)
        return rules.rewrite(rules.rewrite(x, m, None, post), back, None, ends)

    def reached(self, parts, st):
        """these parts of the result, of an analysis of exits, once run has led to this state"""
        at = self.then(st, None)
        if not self.stopped:
            return [at(v) for v in self.left(parts, None)]
        name, text, ident, fix = self.stopped
        k = 'reached', name, ident
        if k not in self.tree.known:
            cursor, self.cursor = self.cursor, None
            here = self.reader({}, name, text, ident, fix)
            self.tree.known[k] = [here(v) for v in self.left(parts, name)]
            self.cursor = cursor
        return [at(v) for v in self.tree.known[k]]

    def left(self, parts, name):
        """parts of the result when the loops are left at a capture of this name, or when they run to their end"""
        k = 'left', name
        if k not in self.by_part:
            known = {LEFT: name is not None, ALL: self.wanted}
            m = {t: tm.S(name) for t, is_node in self.handles() if not is_node} if name is not None else {}
            memo, memo2 = {}, {}
            on = lambda t: known.get(t.a[0] if t.k == 'bool' else t)
            self.by_part[k] = [rules.assume_by(rules.rewrite(v, m, memo2, ends), on, memo, ends) for v in parts]
        return self.by_part[k]

    def part(self, f):
        """the loop state that becomes this field of the result"""
        c = [lv for lv in self.state if lv.a[2] and lv.a[2][-1][:2] == ('f', f.a[1]) and lv.a[2][-1][3] == f.a[3]]
        if len(c) == 1:
            return c[0]
        raise Missing('the part %s of the state' % f.a[1])


def ends(t):
    """parts of values which are known: of sequences, tuples and searches"""
    if t.k == 'upd':
        return tm.with_field(t.a[0], *t.a[1], t.a[2]) if t.a[0].k in ('agg', 'gv') else t
    if t.k in ('find', 'last'):
        return searched(t.a[0], t.a[1], t.a[2], t.k == 'last') or t
    if t.k == 'seq' and any(p[0] == 'for' for p in t.a):
        return gathered(t)
    if t.k == 'catfor':
        l = put_together(t.a[0], t.a[1], t.a[2])
        return l if l is not None else t
    if t.k != 'call' or t.a[0] not in ('last', 'first', 'upd_last', 'upd_first', 'upd_e', 'upd_i', 'at', 'tail', 'init'):
        return t
    op, v = t.a[:2]
    if v.k == 'gv':
        return tm.gv([(g, ends(tm.mk('call', op, x, *t.a[2:]))) for g, x in v.a])
    for end in ('last', 'first'):
        if op in (end, 'upd_' + end) and v.k == 'call' and v.a[0] == 'upd_' + end:
            return v.a[2] if op == end else ends(tm.mk('call', op, v.a[1], t.a[2]))
    l = tm.literal(v)
    if not l:
        return t
    if op == 'at':
        return l[t.a[2].a[0]] if t.a[2].k == 'int' and t.a[2].a[0] < len(l) else t
    if op == 'upd_i':
        n = t.a[2].a[0] if t.a[2].k == 'int' and t.a[2].a[0] < len(l) else None
        return tm.ones(l[:n] + [t.a[3]] + l[n + 1:]) if n is not None else t
    if op == 'upd_e':
        n = [i for i, x in enumerate(l) if x is t.a[2]]
        return tm.ones(l[:n[0]] + [t.a[3]] + l[n[0] + 1:]) if len(n) == 1 else t
    if op in ('tail', 'init'):
        return tm.ones(l[1:] if op == 'tail' else l[:-1])
    return {'last': lambda: l[-1], 'first': lambda: l[0], 'upd_last': lambda: tm.ones(l[:-1] + [t.a[2]]),
            'upd_first': lambda: tm.ones([t.a[2]] + l[1:])}[op]()


def gathered(t):
    """a sequence with the parts for the members of a known sequence written out"""
    out = []
    for p in t.a:
        l = tm.literal(p[1][0].a[0]) if p[0] == 'for' and len(p[1]) == 1 and p[1][0].k == 'elem' else None
        if l is None or len(l) > 64:
            out.append(p)
            continue
        for i, x in enumerate(l):
            m = {p[1][0]: x, tm.mk('call', 'index_of', p[1][0]): tm.I(i)}
            g = tm.nb(rules.rewrite(tm.B(p[2]), m, None, ends))
            if g is not FALSE:
                out.append(('one', g, rules.rewrite(p[3], m, None, ends)))
    return tm.seq(out)


def put_together(bs, g, v):
    """the text made of the parts for the members of a known sequence"""
    if len(bs) != 1 or bs[0].k != 'elem':
        return None
    l = tm.literal(bs[0].a[0])
    if l is None or len(l) > 64:
        return None
    out = []
    for i, x in enumerate(l):
        m = {bs[0]: x, tm.mk('call', 'index_of', bs[0]): tm.I(i)}
        gx = tm.subst(g, m)
        if gx is not TRUE:
            return None
        out.append(tm.subst(v, m))
    return tm.cat(*out) if out else tm.S('')


def searched(bs, g, v, last=False):
    """what a search through a known sequence finds, in order"""
    if len(bs) != 1 or bs[0].k != 'elem':
        return None
    l = tm.literal(bs[0].a[0])
    if l is None or len(l) > 64:
        return None
    out = []
    none = TRUE
    for x in reversed(l) if last else l:
        m = {bs[0]: x}
        gx = tm.subst(g, m)
        out.append((bdd.AND(none, gx), tm.subst(v, m)))
        none = bdd.AND(none, bdd.NOT(gx))
    out = [(c, y) for c, y in out if c is not FALSE]
    return tm.gv(out) if out else None


def is_capture(b):
    return b.k == 'elem' and b.a[0].k == 'f' and b.a[0].a[1].split('::')[-1] == 'QueryMatch' and tm.FN[b.a[0].a[1]][0][b.a[0].a[3]] == 'captures'


def is_match(b):
    return b.k == 'elem' and b.a[0].k == 'call' and str(b.a[0].a[0]).split('::')[-1] == 'matches'


def is_name(t):
    """one of the names of captures, and no part of what the loops carry"""
    if t.k != 'at' and (t.k != 'call' or str(t.a[0]) != 'at'):
        return False
    sub = list(tm.subterms(t.a[1] if t.k == 'call' else t.a[0]))
    return any(x.k == 'call' and str(x.a[0]).endswith('capture_names') for x in sub) and not any(x.k == 'lv' for x in sub)
