"""C21: a reset keeps the session intact and a failed reset changes nothing."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup
from props import c20

RULE = ('The condition under which a rescan publishes problems is derived from the source and must be: the configured '
        'language is supported and no entry of a walked directory fails.  Every value the worker carries is compared with '
        'its value before the rescan: outside that condition it is unchanged, inside it the files are those of the walk, '
        "the configuration is the worker's own, the completion style is kept and the link to the queue is the worker's own "
        'queue.  The reset command and every other way to a rescan must reach it.')

LANGS = ('rust', 'python')
FILES = ('trees', 'documents', 'variables')


def check(k):
    S = k.server()
    s = S.case('Initialized')
    where = 'Initialized'
    if not rules.trees_invariant(k, S):
        return
    pubs = [e for e in s.events if rules.is_send(e) and rules.chan_of(e.args[0]) is S.diag[0] and rules.aggs(e.args[1], 'DiagnosticMessage')]
    if not k.ob('publish', len(pubs) >= 1, 'a rescan publishes its problems', where):
        return
    cs = c20.configs(S)
    own = {p: f for p, f in cs.items() if not c20.in_files(S, p)} or cs
    place, cfg = list(own.items())[0]
    lang = cfg['lang'][0]

    def std(t):
        while t.k == 'bool' and isinstance(t.a[0], tm.T):
            t = t.a[0]
        if t.k == 'call' and t.a[0] == 'bad_query':
            return False
        return rules.trees_have(S, t)

    def at(name, ok):
        def f(t):
            if t.k == 'eq':
                for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if a.k == 'str' and b is lang:
                        return a.a[0] == name
            r = std(t)
            if r is None and ok is not None and fails(t):
                return not ok
            return r
        return f
    # when it succeeds
    walked = 0
    for l in LANGS + ('', 'Rust', 'go'):
        g = rules.assume_by(any_of(e.cond for e in pubs), at(l, None), {})
        if l in LANGS:
            odd = []
            for i in sup(g):
                if fails(ATOMS[i]):
                    walked += 1
                else:
                    odd.append(rules.flat(ATOMS[i], 200))
            k.ob('only-failures:' + l, not odd, 'a rescan for %s fails only if a directory entry cannot be read' % l, where, '; '.join(odd))
            g = rules.assume_by(g, at(l, True), {})
            k.ob('succeeds:' + l, g is TRUE, 'a rescan for %s without failures succeeds' % l, where, tm.shown(g, 3))
        else:
            k.ob('unsupported:' + (l or 'empty'), g is FALSE, 'no rescan for the unsupported language "%s"' % l, where, tm.shown(g, 3))
    k.floor('failures of the walk', walked, 2)
    # what it does
    new_style = S.store('is_vscode')
    k.ob('style:known', new_style is not None, 'the completion style is kept in the worker', where)
    for l in LANGS + ('go',):
        on = lambda x, l=l: rules.assume_by(s.on(x), at(l, None), {})
        G = on(any_of(e.cond for e in pubs))
        n = 0
        for (root, path), (lv, init, step) in S.state.items():
            x = on(step)
            name = place_name(path)
            n += 1
            k.ob('failed:%s:%s' % (l, name), kept_outside(x, lv, G), 'a failed rescan (%s) leaves %s as it was' % (l, name), where, rules.flat(x))
        k.floor('carried values', n, 10)
    for l in LANGS:
        f = at(l, True)
        memo = {}
        on = lambda x: rules.assume_by(s.on(x), f, memo)
        for name in FILES:
            lv, init, step = S.store(name)
            x = on(step)
            k.ob('scanned:%s:%s' % (l, name), tm.contains(x, is_walk) or from_walk(S, x), 'after a rescan the %s are those of the walk' % name, where, rules.flat(x))
            mixes = tm.contains(x, lambda t: t is lv)
            if name == 'documents':
                k.ob('open-text', mixes, 'the text of open documents outlives a rescan', where, 'the documents are replaced by ' + rules.flat(x, 200))
            else:
                k.ob('replaced:%s:%s' % (l, name), not mixes or name == 'documents', 'after a rescan nothing of the earlier %s is left' % name, where, rules.flat(x))
        lv, init, step = S.store('is_vscode')
        x = on(step)
        k.ob('style:' + l, c20.unchanged(x, lv), 'the completion style chosen at initialization is kept', where, rules.flat(x))
        st = S.store('main_channel')
        if st is not None:
            x = on(st[2])
            k.ob('link:' + l, own_queue(S, x), "the link to the worker's own queue is kept", where, rules.flat(x))
        for p, fs in cs.items():
            for n, (lv, init, step) in fs.items():
                x = on(step)
                k.ob('config:%s:%s' % (l, n), c20.unchanged(x, cfg[n][0]), 'a rescan ends with the current configuration', where, rules.flat(x))
        st = S.store('ignore_globals')
        if st is None and 'ignore_globals' in S.F:
            k.ob('hide:' + l, False, 'whether undefined variables are hidden is what the current configuration says', where, 'it never changes')
        elif st is not None and 'hide_undefined' in cfg:
            h = cfg['hide_undefined'][0]
            x = on(st[2])
            want = AND(atom(tm.mk('isv', h, 1)), tm.nb(tm.payload(h)))
            k.ob('hide:' + l, tm.nb(x) == want, 'whether undefined variables are hidden is what the current configuration says', where, rules.flat(x))
        for e in pubs:
            p = on(e.args[1])
            old = {S.state[q][0] for q in S.state if q[1] and any(y[0] == 'f' and y[1] == S.files_adt for y in q[1])}
            bad = [rules.flat(t, 80) for t in tm.subterms(p) if t in old]
            k.ob('problems:' + l, not bad and (tm.contains(p, is_walk) or from_walk(S, p)), 'the problems published are those of the new files', where, str(bad) or rules.flat(p))
    # the link is to the own queue at all
    send = [e for e in S.case('DidChange').events if rules.is_send(e) and rules.chan_of(e.args[0]) is S.main]
    k.ob('link', send, "after a change a refresh is sent to the worker's own queue", 'DidChange')
    reach(k, S)


def is_walk(t):
    return t.k == 'call' and 'WalkDir' in str(t.a[0])


def from_walk(S, x):
    """x comes from the walk through loop carried values"""
    return any(is_walk(t) for t in rules.through(S, x))


def fails(t):
    """the atom says that some entry of a walk cannot be read"""
    while t.k == 'bool' and isinstance(t.a[0], tm.T):
        t = t.a[0]
    if t.k != 'exists' or not tm.contains(t, is_walk):
        return False

    def good(u):
        if u.k == 'isv' and u.a[1] == 1 and tm.contains(u.a[0], is_walk) and entry(u.a[0]):
            return False
        if u.k == 'exists':
            return False if fails(u) else None
        return None
    body = t.a[-1]
    r = rules.assume_by(body if not isinstance(body, tm.T) else tm.nb(body), good, {})
    return r is FALSE


def entry(t):
    """an entry of a walk or the metadata of one"""
    if t.k == 'elem':
        return is_walk(t.a[0]) or tm.contains(t.a[0], is_walk)
    return t.k == 'call' and str(t.a[0]).split('::')[-1] in ('metadata', 'symlink_metadata', 'file_type') and len(t.a) == 2


def place_name(path):
    out = []
    for x in path:
        if x[0] == 'f' and x[1] in tm.FN:
            out.append(tm.FN[x[1]][x[2]][x[3]])
        elif x[0] == 'f':
            out.append(str(x[3]))
    return '.'.join(out)


def kept_outside(x, lv, G):
    if c20.unchanged(x, lv):
        return True
    if x.k == 'gv':
        return all(AND(g, NOT(G)) is FALSE or y is lv or c20.unchanged(y, lv) for g, y in x.a) and AND(NOT(any_of(g for g, y in x.a)), NOT(G)) is FALSE
    a, b = tm.nb(x), tm.nb(lv)
    return AND(NOT(G), OR(AND(a, NOT(b)), AND(b, NOT(a)))) is FALSE


def own_queue(S, x):
    return x.k == 'agg' and len(x.a) == 3 and x.a[1] == 1 and rules.chan_of(x.a[2]) is S.main


def reach(k, S):
    """every way to a rescan"""
    vi = S.variants.index('Initialized')
    c = S.case('ExecuteCommand')
    cmd = rules.sel(c.param(0), ('ExecuteCommandParams', 'command'))

    def at(t):
        if t.k == 'eq':
            for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if a.k == 'str' and b is cmd:
                    return a.a[0] == 'reset_variables'
        return None
    g = any_of(rules.assume_by(e.cond, at, {}) for e in c.events if rules.is_send(e) and rules.chan_of(e.args[0]) is S.main
               and e.args[1].k == 'agg' and e.args[1].a[0] == S.msg_adt and e.args[1].a[1] == vi)
    k.ob('reset', g is TRUE, 'the reset command leads to a rescan', 'ExecuteCommand', tm.shown(g, 3))
