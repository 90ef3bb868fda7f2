"""The handling of a change notification: what one content change does to the text and the tree."""
import rules
import arith
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT
from terms import call, I, some, NONE


class Changes(object):
    def __init__(self, S, ext):
        self.S = S
        self.ext = ext
        self.s = s = S.scene('DidChange', ext, True)
        self.param = s.param()
        self.uri = rules.sel(self.param, ('DidChangeTextDocumentParams', 'text_document'), ('VersionedTextDocumentIdentifier', 'uri'))
        self.list = rules.sel(self.param, ('DidChangeTextDocumentParams', 'content_changes'))
        self.docs0, self.trees0 = s.before('documents'), s.before('trees')
        self.docs1, self.trees1 = s.after('documents'), s.after('trees')
        self.docs = self.loop(self.docs1)
        self.trees = self.loop(self.trees1)

    def loop(self, v):
        """(lv, init, step, binders) of the loop a value comes out of"""
        if v is None or v.k != 'lv' or v not in self.S.a.lvinfo or v is self.docs0 or v is self.trees0:
            return None
        init, step, bs = self.S.a.lvinfo[v]
        o = lambda x: self.s.on(self.s.case.on(x))
        return v, o(init), o(step), tuple(o(b) for b in bs)

    def scenarios(self, el):
        """(name, simplifier, facts about the change) for one content change"""
        adt = [p for p in tm.FN if p.endswith('::TextDocumentContentChangeEvent')][0]
        F = rules.fields_of(el, adt)
        rng, text = F['range'], F['text']
        r = tm.payload(rng)
        R = rules.fields_of(r, 'rng')
        padt = 'pos'
        p1, p2 = rules.fields_of(R['start'], padt), rules.fields_of(R['end'], padt)
        out = []
        for has, sameline, emp, edge in [x + (False,) for x in ((False, None, False), (False, None, True), (True, True, False), (True, True, True), (True, False, False), (True, False, True))] + [(True, True, False, True), (True, False, False, True)]:
            name = 'whole' if not has else ('in one line' if sameline else 'over lines')
            name += ', no text' if emp else ''
            name += ', up to the end of the line' if edge else ''
            out.append((name, self.simplifier(el, rng, text, p1, p2, has, sameline, emp, edge), dict(text=text, p1=p1, p2=p2, has=has, sameline=sameline, empty=emp)))
        return out

    def simplifier(self, el, rng, text, p1, p2, has, sameline, emp, edge):
        S = self.S
        et = tm.empty(text)
        p0 = p2
        if sameline:
            p2 = dict(p2, line=p1['line'])

        def pred(t):
            if t.k == 'isv' and t.a[0] is rng:
                return (t.a[1] == 1) == has
            if rules.atom(t) is et:
                return emp
            if t.k == 'empty' and t.a[0] is text:
                return emp
            return rules.doc_known(S, self.s.case)(t) if t.k == 'isv' and t.a[0].k == 'get' else None

        def on(x):
            f = InRange(p1, p2)
            if has:
                if sameline:
                    (f.lt if edge else f.le)(p1['character'], p2['character'])
                    x = rules.rewrite(x, {p0['line']: p1['line']})
                else:
                    f.lt(p1['line'], p2['line'])
            for _ in range(4):
                if edge:
                    x = at_end(x, p1, p2)
                y = arith.simplify(x, f, pred)
                if has:
                    y = splice(y)
                if y is x:
                    break
                x = y
            return x
        return on


class InRange(arith.Facts):
    """both positions lie in the text"""
    def __init__(self, p1, p2, known=()):
        arith.Facts.__init__(self, known)
        self.p = (p1, p2)

    def copy(self):
        f = InRange(self.p[0], self.p[1], self.known)
        f.seen = set(self.seen)
        f.differ = list(self.differ)
        return f

    def lemmas(self, x):
        for t in list(tm.subterms(x)):
            if t.k != 'call' or not all(arith.pure(a) for a in t.a[1:] if isinstance(a, tm.T)):
                continue
            for p in self.p:
                if t.a[0] == 'len_lines':
                    self.lt(p['line'], t)
                m = arith.measure(t)
                if m is None and t.a[0] == 'len_utf16_cu':
                    m = ('utf16', t.a[1])
                if m and m[0] == 'utf16' and m[1].k == 'call' and m[1].a[0] == 'rope_line' and m[1].a[2] is p['line']:
                    self.lt(p['character'], t)
        arith.Facts.lemmas(self, x)


def at_end(x, p1, p2):
    """x where both columns are the width of their line"""
    m = {}
    for t in tm.subterms(x):
        u = arith.measure(t)
        if u is None and t.k == 'call' and t.a[0] == 'len_utf16_cu':
            u = ('utf16', t.a[1])
        if u and u[0] == 'utf16' and u[1].k == 'call' and u[1].a[0] == 'rope_line':
            for p in (p1, p2):
                if u[1].a[2] is p['line']:
                    m[t] = p['character']
    return rules.rewrite(x, m) if m else x


def splice(x):
    """one form for replacing a range of a rope"""
    memo = {}

    def on(y):
        if isinstance(y, tm.T):
            if y in memo:
                return memo[y]
            z = tm.rebuild(y, on) if y.a else y
            if z.k == 'call' and z.a[0] == 'rope_insert':
                r = z.a[1]
                if r.k == 'call' and r.a[0] == 'rope_remove' and r.a[2].k == 'agg' and r.a[2].a[2] is z.a[2]:
                    z = call('splice', r.a[1], r.a[2].a[2], r.a[2].a[3], z.a[3])
            elif z.k == 'call' and z.a[0] == 'rope_remove':
                r = z.a[1]
                if r.k == 'call' and r.a[0] == 'rope_insert' and z.a[2].k == 'agg' and r.a[2] is z.a[2].a[3]:
                    z = call('splice', r.a[1], z.a[2].a[2], z.a[2].a[3], r.a[3])
            memo[y] = z
            return z
        if isinstance(y, tuple):
            return tuple(on(z) for z in y)
        return y
    return on(x)


def char_at(rope, p):
    """character index of a position whose column counts utf-16 units"""
    return tm.add(call('line_to_char', rope, p['line']), call('utf16_cu_to_char', call('rope_line', rope, p['line']), p['character']))


def spliced(rope, c):
    """what the text becomes"""
    if not c['has']:
        return [call('rope', c['text'])]
    p2 = dict(c['p2'])
    if c['sameline']:
        p2['line'] = c['p1']['line']
    s, e = char_at(rope, c['p1']), char_at(rope, p2)
    out = [call('splice', rope, s, e, c['text'])]
    if c['empty']:
        out += [('remove', rope, s, e)]
    return out


def is_spliced(v, rope, c):
    for x in spliced(rope, c):
        if isinstance(x, tuple):
            if v.k == 'call' and v.a[0] == 'rope_remove' and v.a[1] is x[1] and v.a[2].k == 'agg' and v.a[2].a[2] is x[2] and v.a[2].a[3] is x[3]:
                return True
        elif v is x:
            return True
    if c['empty'] and not c['has'] and v.k == 'call' and v.a[0] == 'rope' and v.a[1] in (tm.S(''), c['text']):
        return True
    return False
