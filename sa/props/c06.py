"""C06: every content change is applied, in order, where the editor meant."""
import rules
import changes
import facts
import arith
import terms as tm
from bdd import TRUE, FALSE

RULE = ('The stored text after a change notification is derived as a value: it must be the result of going over the '
        'content changes of the notification, all of them and in order, and the step for one change must replace the '
        'whole text if it has no range, and otherwise replace exactly the characters between the positions of the '
        'range, each converted as line start in characters plus the utf-16 column converted to characters of that '
        'line.  Checked for template and backend documents, ranges within a line and across lines, and empty and '
        'non-empty texts; documents of other kinds and unknown documents stay untouched.')


def check(k):
    S = k.server()
    n = 0
    for ext in ('html', 'py'):
        C = changes.Changes(S, ext)
        if not k.ob('loop:' + ext, C.docs is not None, 'a change notification folds its changes into the stored text', S.msg_adt, rules.flat(C.docs1)):
            continue
        lv, init, step, bs = C.docs
        k.ob('start:' + ext, init is C.docs0, 'the changes start from the stored text', '', rules.flat(init))
        ok = len(bs) == 1 and bs[0].k == 'elem' and bs[0].a[0] is C.list
        if not k.ob('each:' + ext, ok, 'every change of the notification is applied, in order', '', str([rules.flat(b) for b in bs])):
            continue
        el = bs[0]
        rope = tm.payload(tm.mget(lv, C.uri))
        for name, on, c in C.scenarios(el):
            n += 1
            v = on(step)
            good = v.k == 'put' and v.a[0] is lv and v.a[1] is C.uri and changes.is_spliced(v.a[2], on(rope), c)
            k.ob('apply:%s:%s' % (ext, name), good, 'a change (%s) replaces exactly the range the editor meant' % name, '', rules.flat(v, 900))
        # a column after the end of the line means the end of the line, before its line end characters
        for t in sorted({t for t in tm.subterms(step) if arith.measure(t)}, key=lambda t: t.id):
            n += 1
            for ch, inside in (('\n', False), ('\r', False), ('a', True)):
                bad = at_char(t, ch, inside)
                k.ob('line-end:%s:%r' % (ext, ch), not bad, 'a column after the end of a line is moved to the end of its %s' % ('text' if inside else 'text, before the line end'), '', bad)
    # lines are those of the protocol: ended by a line feed, a carriage return or both
    rope = any(t.k == 'call' and t.a[0] in ('line_to_char', 'rope_line', 'len_lines') for t in tm.subterms(step))
    fs = facts.features('ropey')
    k.ob('line-breaks', not rope or 'unicode_lines' not in fs and 'cr_lines' in fs, 'the lines of the stored text are the lines of the editor', '',
         'lines are counted by ropey with the features %s' % sorted(fs))
    k.floor('kinds of changes', n, 12)
    # a change of an unknown document changes nothing
    s = S.scene('DidChange', 'html', False, lambda t: False if t.k == 'isv' and t.a[0].k == 'get' and S.store_of(t.a[0].a[0]) == 'documents' and t.a[1] == 1 else None)
    for st in ('documents', 'trees', 'variables'):
        k.ob('unknown:' + st, s.after(st) is None or s.after(st) is s.before(st), 'a change of a document that is not open changes nothing stored', '', rules.flat(s.after(st) or tm.UNDEF))


def at_char(t, ch, inside):
    """what is wrong with the width of a line t at a character that is (not) part of the text of the line"""
    p = t.a[1].a[0]
    parts = [p]
    src = p[1][0].a[0] if p[1][0].k == 'elem' else None
    while src is not None and (src.k == 'it' or src.k == 'call' and src.a[0] == 'prefix'):
        if src.k == 'call':
            q = src.a[2]
            if q.k != 'seq' or len(q.a) != 1 or q.a[0][0] != 'for':
                return ''
            parts.append(q.a[0])
        src = src.a[1] if src.k == 'call' else src.a[0]
    conds = [rules.rewrite(q[2], {q[1][0]: tm.S(ch)}) for q in parts]
    if inside:
        return '; '.join('stops at %r' % ch for c in conds if c is FALSE)
    if all(c is TRUE for c in conds):
        return '%r is counted' % ch
    return ''
