"""What a message does to a map: the single edits between the value before and the value after."""
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT


class Edit(object):
    __slots__ = ('op', 'key', 'val', 'cond', 'on')

    def __init__(self, op, key, val, cond, on):
        self.op, self.key, self.val, self.cond, self.on = op, key, val, cond, on

    def __repr__(self):
        return '%s(%s, %s)' % (self.op, tm.show(self.key, 4) if self.key else '', tm.show(self.val, 4) if self.val else '')


def edits(S, x, isbase, cond=TRUE, seen=None, on=None):
    """edits that lead from the base to x, in no particular order.
    put: the key gets the value; del: the key goes; keep: only entries for which val (a term) holds stay; other: unknown"""
    if seen is None:
        seen = set()
    if on is None:
        on = ident
    if cond is FALSE or isbase(x) or x in seen or x.k == 'undef':
        return []
    if x.k == 'gv':
        out = []
        for g, y in x.a:
            c = AND(cond, g)
            if c is not FALSE:
                out += edits(S, y, isbase, c, seen, on)
        return out
    if x.k == 'put':
        return edits(S, x.a[0], isbase, cond, seen, on) + [Edit('put', x.a[1], x.a[2], cond, x.a[0])]
    if x.k == 'del':
        return edits(S, x.a[0], isbase, cond, seen, on) + [Edit('del', x.a[1], None, cond, x.a[0])]
    if x.k == 'lv' and x in S.a.lvinfo:
        init, step, bs = S.a.lvinfo[x]
        s2 = seen | {x}
        return edits(S, on(init), isbase, cond, s2, on) + edits(S, on(step), isbase, cond, s2, on)
    if x.k == 'last':
        return edits(S, x.a[2], isbase, AND(cond, x.a[1]), seen, on)
    if x.k == 'mfor':
        bs, init, g, key, v = x.a
        if init.k == 'emap' and len(bs) == 1 and bs[0].k == 'elem' and key is tm.field(bs[0], '()', 0, 0):
            src = bs[0].a[0]
            out = edits(S, src, isbase, cond, seen, on)
            if g is not TRUE:
                out.append(Edit('keep', key, g, cond, src))
            if v is not tm.field(bs[0], '()', 0, 1):
                out += made('put', key, v, AND(cond, g), src)
            return out
        return edits(S, init, isbase, cond, seen, on) + made('put', key, v, AND(cond, g), init)
    return [Edit('other', None, x, cond, x)]


def made(op, key, val, cond, on):
    return [] if cond is FALSE else [Edit(op, key, val, cond, on)]


def ident(x):
    return x


def leaf_edits(S, x, base, nested, on=None):
    """edits of documents in a store; nested: the store maps languages to maps of documents"""
    out = []
    for e in edits(S, x, lambda t: t is base, on=on):
        if not nested:
            out.append(e)
            continue
        if e.op != 'put':
            out.append(Edit('other', e.key, e.val or e.on, e.cond, e.on))
            continue
        lang = e.key

        def isb(t):
            return t.k == 'f' and t.a[0].k == 'get' and t is tm.payload(t.a[0]) and t.a[0].a[1] is lang and chain(S, t.a[0].a[0], base)
        for d in edits(S, e.val, isb, e.cond, None, on):
            out.append(d)
    return out


def chain(S, m, base, seen=None):
    """the map is the base with some entries replaced"""
    seen = seen or set()
    if m is base or m in seen:
        return True
    if m.k in ('put', 'del'):
        return chain(S, m.a[0], base, seen)
    if m.k == 'gv':
        return all(chain(S, v, base, seen) for g, v in m.a)
    if m.k == 'lv' and m in S.a.lvinfo:
        init, step, bs = S.a.lvinfo[m]
        s2 = seen | {m}
        return chain(S, init, base, s2) and chain(S, step, base, s2)
    if m.k == 'mfor':
        return chain(S, m.a[1], base, seen)
    if m.k == 'last':
        return chain(S, m.a[2], base, seen)
    return False
