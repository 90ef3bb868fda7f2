"""C05: the syntax tree belongs to the current text."""
import rules
import changes
import arith
import terms as tm
from terms import call, I, some, NONE
from bdd import TRUE, FALSE, AND, OR, NOT, atom

RULE = ('Every tree that message handling stores is followed to the parse that made it: the text parsed must be the '
        'very text stored for the same document by the same message, under the language of its extension, and the '
        'earlier tree handed to the parser must be none or the stored tree of that document with the recorded edit '
        'that leads from the old text to the new one (bytes and points computed from the old text).  For change '
        'notifications this is shown for one change of each kind, with both loops walking all changes in order.  '
        'Every query that message handling runs over a tree gets the text that this tree was parsed from, or tree and '
        'text are looked up under one key in stores that change together.')


def parsed(t):
    """(parser, text, old) if t is the tree of a parse"""
    if t.k == 'f' and t.a[0].k == 'call' and t.a[0].a[0] == 'parse' and tm.payload(t.a[0]) is t:
        return t.a[0].a[1:4]
    return None


def unput(S, v, lv):
    """(language, key, tree) when v is the tree store lv with one tree replaced"""
    if v.k != 'put' or v.a[0] is not lv:
        return None
    lang, inner = v.a[1], v.a[2]
    if inner.k != 'put' or inner.a[0] is not tm.payload(tm.mget(lv, lang)):
        return None
    return lang, inner.a[1], inner.a[2]


def lang_is(S, t, name):
    return t.k == 'agg' and t.a[0] == S.lang_adt and tm.VN[S.lang_adt][t.a[1]] == name


def text_of(rope):
    if rope.k == 'call' and rope.a[0] == 'rope':
        return rope.a[1]
    return call('text', rope)


def check(k):
    S = k.server()
    rules.trees_invariant(k, S)
    n = 0
    # opening
    for ext, lang in rules.EXTS.items():
        s = S.scene('DidOpen', ext)
        d0, d1, t0, t1 = s.before('documents'), s.after('documents'), s.before('trees'), s.after('trees')
        p = s.param()
        item = rules.sel(p, ('DidOpenTextDocumentParams', 'text_document'))
        uri, text = rules.sel(item, ('TextDocumentItem', 'uri')), rules.sel(item, ('TextDocumentItem', 'text'))
        u = unput(S, t1, t0)
        k.ob('open:text:' + ext, d1.k == 'put' and d1.a[0] is d0 and d1.a[1] is uri and text_of(d1.a[2]) is text,
             'opening stores the opened text under its URI', '', rules.flat(s.nice(d1)))
        if k.ob('open:tree:' + ext, u is not None, 'opening stores one tree', '', rules.flat(s.nice(t1))):
            n += 1
            q = parsed(u[2])
            k.ob('open:key:' + ext, u[1] is uri and lang_is(S, u[0], lang), 'the tree is stored for the opened document and its language', '', rules.flat(s.nice(t1)))
            k.ob('open:parse:' + ext, q is not None and q[1] is text, 'the tree is a parse of the opened text', '', rules.flat(s.nice(u[2])))
            k.ob('open:afresh:' + ext, q is not None and q[2] is NONE, 'the tree is parsed afresh, not with an unrelated tree as the starting point', '', rules.flat(s.nice(q[2])) if q else '')
    # changing
    for ext in ('html', 'py'):
        lang = rules.EXTS[ext]
        C = changes.Changes(S, ext)
        if not k.ob('change:loop:' + ext, C.docs is not None and C.trees is not None, 'text and tree follow the changes of a notification', '', rules.flat(C.trees1)):
            continue
        lv, init, step, bs = C.trees
        dlv, dinit, dstep, dbs = C.docs
        k.ob('change:start:' + ext, init is C.trees0 and dinit is C.docs0, 'both start from what is stored', '', rules.flat(init))
        ok = len(bs) == 1 and bs[0].k == 'elem' and bs[0].a[0] is C.list and len(dbs) == 1 and dbs[0].k == 'elem' and dbs[0].a[0] is C.list
        if not k.ob('change:each:' + ext, ok, 'the tree is brought up to date with every change, in order', '', str([rules.flat(b) for b in bs])):
            continue
        # one change: the loops go over the same list, so speak about the same element
        m = {bs[0]: dbs[0]}
        step = rules.rewrite(step, m)
        rope = tm.payload(tm.mget(dlv, C.uri))
        for name, on, c in C.scenarios(dbs[0]):
            if c['has'] and 'up to' in name:
                continue
            n += 1
            v = on(step)
            newrope = tm.payload(tm.mget(on(dstep), C.uri))
            u = unput(S, v, lv)
            if not k.ob('change:tree:%s:%s' % (ext, name), u is not None and u[1] is C.uri and lang_is(S, u[0], lang),
                        'a change (%s) replaces the tree of the changed document' % name, '', rules.flat(v, 900)):
                continue
            q = parsed(u[2])
            if not k.ob('change:parse:%s:%s' % (ext, name), q is not None and same_text(q[1], newrope), 'the new tree is a parse of the new text (%s)' % name, '',
                        rules.flat(u[2]) + ' | text: ' + rules.flat(newrope)):
                continue
            old = q[2]
            if old is NONE:
                continue
            ot = tm.payload(old) if old.k != 'agg' else old.a[2]
            mine = tm.payload(tm.mget(tm.payload(tm.mget(lv, u[0])), C.uri))
            good = ot.k == 'call' and ot.a[0] == 'edited' and ot.a[1] is mine
            if k.ob('change:old:%s:%s' % (ext, name), good, 'an earlier tree is reused only with the edit recorded on it (%s)' % name, '', rules.flat(ot)):
                bad = edit_wrong(on, ot.a[2], on(rope), c)
                k.ob('change:edit:%s:%s' % (ext, name), not bad, 'the recorded edit leads from the old text to the new one (%s)' % name, '', bad)
    k.floor('ways a tree is replaced', n, 15)
    # every other message leaves both alone, a rescan replaces both
    for var in S.variants:
        if var in ('DidOpen', 'DidChange', 'Initialized'):
            continue
        for ext in ('html', 'py'):
            s = S.scene(var, ext)
            for st in ('trees', 'documents'):
                k.ob('unchanged:%s:%s:%s' % (var, ext, st), s.after(st) is None or s.after(st) is s.before(st), '%s changes no text and no tree' % var, '', rules.flat(s.after(st) or tm.UNDEF))
    scan(k, S)
    queries(k, S)


def same_text(t, rope):
    if text_of(rope) is t:
        return True
    # inserting nothing
    if t.k == 'call' and t.a[0] == 'text':
        return t.a[1] is rope
    return False


def edit_wrong(on, e, r, c):
    """what is wrong with an InputEdit, given the text before"""
    ty = e.a[0] if e.k == 'agg' else [p for p in tm.FN if p.endswith('::InputEdit')][0]
    F = {n: on(tm.field(e, ty, 0, i)) for i, n in enumerate(tm.FN[ty][0])}
    p1, p2 = c['p1'], dict(c['p2'])
    if c['sameline']:
        p2['line'] = p1['line']
    sb = call('char_to_byte', r, changes.char_at(r, p1))
    eb = call('char_to_byte', r, changes.char_at(r, p2))
    out = []
    if F['start_byte'] is not sb:
        out.append('start_byte is ' + rules.flat(F['start_byte'], 200))
    if F['old_end_byte'] is not eb:
        out.append('old_end_byte is ' + rules.flat(F['old_end_byte'], 200))
    if F['new_end_byte'] is not tm.add(sb, tm.length(c['text'])) and F['new_end_byte'] is not on(tm.add(sb, tm.length(c['text']))):
        out.append('new_end_byte is ' + rules.flat(F['new_end_byte'], 200))

    def point(b):
        row = call('byte_to_line', r, b)
        return row, tm.sub(b, call('line_to_byte', r, row))
    for nm, b, p in (('start_position', sb, p1), ('old_end_position', eb, p2)):
        row, col = point(b)
        got = F[nm]
        gr, gc = tm.field(got, 'pos', 0, 0), tm.field(got, 'pos', 0, 1)
        cols = [col, tm.sub(b, call('line_to_byte', r, p['line']))]
        if not (gr in (row, p['line']) and gc in cols):
            out.append('%s is %s' % (nm, rules.flat(got, 200)))
    # end of the new text: counted from the start
    got = F['new_end_position']
    gr, gc = tm.field(got, 'pos', 0, 0), tm.field(got, 'pos', 0, 1)
    srow = tm.field(F['start_position'], 'pos', 0, 0)
    scol = tm.field(F['start_position'], 'pos', 0, 1)
    text = c['text']
    about = lambda t: tm.contains(t, lambda y: y is text)
    for v in alts(gr):
        rest = tm.sub(v, srow)
        if rest is not I(0) and not breaks(rest, text):
            out.append('row of new_end_position is ' + rules.flat(gr, 200))
            break
    if not any(about(v) for v in alts(gr)):
        out.append('row of new_end_position does not depend on the new text')
    plain = tm.add(scol, tm.length(text))
    after = False
    for v in alts(gc):
        if v is plain or v is on(plain):
            continue
        after = True
        last = [y for y in tm.subterms(v) if y.k == 'f' and y.a[0].k == 'call' and y.a[0].a[0].endswith('rfind') and tm.payload(y.a[0]) is y]
        if last and v is not tm.sub(tm.sub(tm.length(text), last[0]), I(1)):
            out.append('column of new_end_position is ' + rules.flat(gc, 200))
        elif not about(v):
            out.append('column of new_end_position is ' + rules.flat(gc, 200))
    if not after:
        out.append('column of new_end_position ignores line ends in the new text')
    if not any(v is plain or v is on(plain) for v in alts(gc)):
        out.append('column of new_end_position is not counted from the start')
    return '; '.join(out)


def breaks(t, text):
    """t can be the number of line ends in text; pieces between them are one more"""
    if not tm.contains(t, lambda y: y is text):
        return False
    if tm.contains(t, lambda y: y.k == 'call' and isinstance(y.a[0], str) and y.a[0].split('::')[-1] == 'lines'):
        return False
    k, ts = tm.lin_of(t)
    if any(y.k == 'lv' for y, c in ts):
        return True
    pieces = 0
    for y, c in ts:
        if c != 1:
            return False
        if tm.contains(y, lambda z: z.k == 'call' and isinstance(z.a[0], str) and (z.a[0].split('::')[-1].startswith(('split', 'rsplit')) or z.a[0] == 'len_lines')):
            pieces += 1
    return k == -pieces


def alts(t):
    return [v for g, v in t.a] if t.k == 'gv' else [t]


def scan(k, S):
    """a rescan stores text and tree of each file together"""
    n = 0
    for ext in ('html', 'py'):
        lang = rules.EXTS[ext]
        s = S.scene('Initialized', ext)
        ins = [e for e in s.own if e.kind == 'call' and e.name.endswith('HashMap::insert') and len(e.args) > 2]
        docs = [e for e in ins if e.args[2].k == 'call' and e.args[2].a[0] == 'rope']
        trees = [e for e in ins if parsed(e.args[2])]
        k.ob('scan:docs:' + ext, len(docs) >= 1, 'a scan stores the text of each file', '', '')
        for e in docs:
            n += 1
            key, text = e.args[1], text_of(e.args[2])
            ok = [t for t in trees if t.args[1] is key and parsed(t.args[2])[1] is text and parsed(t.args[2])[2] is NONE and t.loops == e.loops
                  and AND(e.cond, NOT(t.cond)) is FALSE]
            k.ob('scan:%s:%s' % (ext, e.fn().split('::')[-1]), bool(ok), 'a scanned file gets a tree parsed afresh from exactly its stored text', e.span,
                 'text %s; trees: %s' % (rules.flat(text, 150), [rules.flat(t.args[2], 150) for t in trees]))
        for t in trees:
            ok = [e for e in docs if e.args[1] is t.args[1] and text_of(e.args[2]) is parsed(t.args[2])[1] and AND(t.cond, NOT(e.cond)) is FALSE]
            k.ob('scan:tree:%s:%s' % (ext, t.fn().split('::')[-1]), bool(ok), 'a tree is stored only together with its text', t.span, rules.flat(t.args[2]))
    k.floor('scan stores', n, 2)


def queries(k, S):
    n = 0
    for var in S.variants:
        for ext in ('html', 'rs', 'py'):
            s = S.scene(var, ext)
            for e in s.events:
                if e.kind != 'call' or not e.name.startswith('fn:') or len(e.args) < 4:
                    continue
                tree = text = None
                for a in e.args:
                    if is_tree(S, a):
                        tree = a
                texts = [a for a in e.args if is_text(a)]
                if tree is None:
                    k.ob('query:%s:%s:%s' % (var, ext, e.name.split('::')[-1]), False, 'the tree a query runs over is known', e.span, rules.flat(e.args[1]))
                    continue
                n += 1
                good = any(x is not tree and belongs(S, tree, x) for x in e.args)
                k.ob('query:%s:%s:%s' % (var, ext, e.name.split('::')[-1]), good, 'a query runs over a tree together with the text of that tree', e.span,
                     'tree %s with %s' % (rules.flat(s.nice(tree), 300), [rules.flat(s.nice(x), 200) for x in e.args if x is not tree]))
    k.floor('queries run over trees', n, 30)


def is_tree(S, t):
    if parsed(t):
        return True
    if t.k == 'f' and t.a[0].k == 'get' and tm.payload(t.a[0]) is t:
        m = t.a[0].a[0]
        return m.k == 'f' and m.a[0].k == 'get' and rules.is_treemap(S, m.a[0].a[0])
    if t.k == 'gv':
        return all(is_tree(S, v) for g, v in t.a)
    return False


def is_text(t):
    return False


def belongs(S, tree, x):
    """x is the text of the tree"""
    q = parsed(tree)
    if q:
        return x is q[1]
    if x.k == 'call' and x.a[0] == 'text' and together(S, tree, x.a[1]):
        return True
    # case by case
    ts, xs = tm.cases(tree), [(AND(g, h), z) for g, y in tm.cases(x) for h, z in opened(y)]
    if len(ts) + len(xs) < 3:
        return False
    return all(AND(g, h) is FALSE or belongs(S, t, y) for g, t in ts for h, y in xs)


def opened(y):
    if y.k == 'call' and y.a[0] == 'text':
        return [(g, tm.call('text', r)) for g, r in tm.cases(y.a[1])]
    return [(TRUE, y)]


def together(S, tree, rope):
    """tree and rope are entries under one key of stores that change together"""
    if not (rope.k == 'f' and rope.a[0].k == 'get' and tm.payload(rope.a[0]) is rope):
        return False
    if not (tree.k == 'f' and tree.a[0].k == 'get'):
        return False
    dm, dk = rope.a[0].a[0], rope.a[0].a[1]
    m, tk = tree.a[0].a[0], tree.a[0].a[1]
    if dk is not tk or not (m.k == 'f' and m.a[0].k == 'get'):
        return False
    tmap = m.a[0].a[0]
    if dm.k == 'last' and tmap.k == 'last' and dm.a[:2] == tmap.a[:2]:
        dm, tmap = dm.a[2], tmap.a[2]
    # the same moment: carried by the same loop, or both as the loop left them
    if dm.k == 'lv' and tmap.k == 'lv':
        return dm.a[:2] == tmap.a[:2] and dm.a[2][:-1] == tmap.a[2][:-1] and S.store_of(dm) == 'documents' and S.store_of(tmap) == 'trees'
    return False
