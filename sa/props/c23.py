"""C23: the workspace scan covers every template and backend file exactly as configured."""
import rules
import stores
import terms as tm
from props import c19, c20, c21
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup

RULE = ('The value every map of files has after a scan is decomposed into its single insertions, for each supported '
        'extension and for unsupported ones. Each insertion must be made for the entries of a directory walk without '
        'options, rooted at the configured templates directory or at an element of the configured backend directories; '
        'the condition under which it is made must be true for every regular readable file of that extension, its key '
        'must be the file URI of the canonical path of that entry, and its value must be made from the content of that '
        'file. The problems sent must be one list per template of the final map, made from that template.')

NEUTRAL = ('sort_by', 'sort_by_key', 'sort_by_file_name', 'contents_first', 'max_open', 'into_iter', 'follow_root_links')
LOST = ('bad_query', 'no_canonical', 'no_content', 'not_utf8', 'relative')


def is_snippet_error(t):
    return t.k == 'f' and t.a[1].split('::')[-1] == 'Snippets' and tm.FN[t.a[1]][0][t.a[3]] == 'is_error'


def readable(S, ext, lang, cfg, file=True):
    """atoms that hold when every entry is a readable file of this extension and the language is supported"""
    e = rules.ext_is(ext)

    def f(t):
        for g in (e, rules.parses, lambda t: rules.trees_have(S, t)):
            r = g(t)
            if r is not None:
                return r
        if t.k == 'eq':
            for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if a.k == 'str' and b is cfg['lang'][0]:
                    return a.a[0] == lang
        if c21.fails(t):
            return False
        if t.k == 'isv' and t.a[1] == 1 and c21.entry(t.a[0]):
            return False
        while t.k == 'bool' and isinstance(t.a[0], tm.T):
            t = t.a[0]
        if t.k == 'call' and t.a[0] in LOST or is_snippet_error(t):
            return False
        if t.k == 'call' and str(t.a[0]).split('::')[-1] == 'is_file':
            return file
        if t.k == 'call' and str(t.a[0]).split('::')[-1] == 'is_dir':
            return not file
        return None
    return f


def root_of(t):
    """(root, entry) when t is an entry of a plain walk"""
    if t.k != 'elem':
        return None
    w = t.a[0]
    while w.k == 'call' and str(w.a[0]).split('::')[-1] in NEUTRAL:
        w = w.a[1]
    if w.k == 'call' and str(w.a[0]).endswith('WalkDir::new') and len(w.a) == 2:
        return w.a[1]
    return None


def path_entry(t):
    """the entry the path belongs to"""
    if t.k == 'call' and str(t.a[0]).split('::')[-1] in ('path', 'into_path') and len(t.a) == 2:
        x = t.a[1]
        for e in tm.subterms(x):
            if e.k == 'elem' and root_of(e) is not None and (x is e or x.k == 'f' and x.a[0] is e):
                return e
    return None


def of_key(key):
    """(entry, canonical path) of a key that is the file URI of the canonical path of an entry"""
    if key.k == 'call' and key.a[0] == 'furl' and key.a[1].k == 'call' and key.a[1].a[0] == 'canonical':
        e = path_entry(key.a[1].a[1])
        if e is not None:
            return e, key.a[1]
    return None


def check(k):
    S = k.server()
    if not rules.trees_invariant(k, S):
        return
    s = S.case('Initialized')
    cs = c20.configs(S)
    own = {p: f for p, f in cs.items() if not c20.in_files(S, p)} or cs
    cfg = list(own.values())[0]
    n = 0
    for ext, lang in list(rules.EXTS.items()) + [('txt', None), (None, None)]:
        for l in ('rust', 'python'):
            n += loaded(k, S, s, cfg, ext, lang, l)
    k.floor('insertions of the scan', n, 20)
    for l in ('rust', 'python'):
        special(k, S, s, cfg, l)
    problems(k, S, cfg)


def loaded(k, S, s, cfg, ext, lang, l):
    where = 'scan of .%s (%s)' % (ext, l)
    f = readable(S, ext, l, cfg)
    memo = {}
    on = lambda x: rules.assume_by(x, f, memo)
    n = 0
    for name in ('documents', 'trees', 'variables'):
        st = S.store(name)
        x = on(on(s.on(st[2])))
        es = edits(S, x, name == 'trees', on)
        if lang is None:
            k.ob('only:%s:%s:%s' % (name, ext, l), not es, 'only template and backend files are loaded', where, str(es)[:300])
            continue
        by = {}
        for e in es:
            n += 1
            key = '%s:%s:%s' % (name, ext, l)
            got = of_key(e.key) if e.op == 'put' else None
            if not k.ob('key:' + key, got is not None, 'a file found by the walk is kept under the file URI of its canonical path', where, rules.flat(e.key if e.key is not None else x)):
                continue
            ent, path = got
            root = root_of(ent)
            kind = 'templates' if root is cfg['templates'][0] else 'backend' if root.k == 'elem' and root.a[0] is cfg['backend'][0] else None
            if not k.ob('root:' + key, kind is not None, 'the walk starts at a configured directory', where, rules.flat(root)):
                continue
            by.setdefault(kind, []).append(e.cond)
            text = tm.mk('call', 'content', path)
            texts = {text, tm.mk('call', 'content', path.a[1])}
            k.ob('value:' + key, value(S, name, e.val, texts, lang, on), 'what is kept is made from the content of that file', where, rules.flat(e.val))
        none = tm.empty(cfg['backend'][0])
        for kind in ('templates', 'backend'):
            c = any_of(by.get(kind, []))
            if kind == 'backend':
                c = OR(c, none)
            k.ob('every:%s:%s:%s:%s' % (kind, name, ext, l), kind in by and rules.implies(TRUE, c), 'every such file below the %s is kept' % ('templates directory' if kind == 'templates' else 'backend directories'),
                 where, tm.shown(c, 3)[-300:])
    return n


def edits(S, x, nested, on):
    out = []
    for e in stores.edits(S, x, lambda t: t.k == 'emap', on=on):
        if not nested:
            out.append(e)
        elif e.op == 'put':
            out += [d for d in stores.edits(S, e.val, lambda t: t.k == 'emap' or inner(S, t), e.cond, None, on)]
        else:
            out.append(e)
    return out


def inner(S, t):
    return t.k == 'f' and t.a[0].k == 'get' and t is tm.payload(t.a[0]) and rules.is_treemap(S, t.a[0].a[0])


def value(S, name, v, texts, lang, on):
    if name == 'documents':
        return v.k == 'call' and v.a[0] == 'rope' and v.a[1] in texts
    if name == 'trees':
        return is_tree(v, texts)
    # the variables are what the queries find in this file
    qs = set()
    for t in rules.through(S, v):
        if t.k == 'call' and str(t.a[0]).startswith('fn:'):
            qs.add(on(t))
    need = {'Template': {'definition_query'}, 'Backend': {'backend_definition_query', 'backend_templates_query'}}[lang]
    names = {str(q.a[0]).split('::')[-1] for q in qs}
    if not need <= names:
        return False
    for q in qs:
        if not any(x in texts for x in q.a[2:]) or not any(is_tree(x, texts) for x in q.a[2:]):
            return False
        if not any(x.k == 'b' and x.a[0] is TRUE or x.k == 'int' and x.a[0] for x in q.a[-1:]):
            return False
    return True


def is_tree(v, texts):
    if v.k == 'f' and tm.payload(v.a[0]) is v:
        v = v.a[0]
    return v.k == 'call' and v.a[0] == 'parse' and v.a[2] in texts


def special(k, S, s, cfg, l):
    """a directory isn't loaded, whatever its name"""
    f = readable(S, 'html', l, cfg, False)
    memo = {}
    on = lambda x: rules.assume_by(x, f, memo)
    x = on(on(s.on(S.store('documents')[2])))
    es = edits(S, x, False, on)
    k.ob('files:' + l, not es, 'only regular files are loaded', 'scan (%s)' % l, str(es)[:300])


def one_entry(its, src, on):
    """the elements are the same one: of one loop, under its own name or the one it has inside a value"""
    ids = {i.a[1] for i in its}
    loops = {i for i in ids if not isinstance(i, str)}
    if not ids or len(loops) > 1 or len(ids - loops) > 1:
        return False
    return not loops or all(any(b.a[1] in loops and on(b.a[0]) is src for b in tm.WAS.get(i, ())) for i in ids - loops)


# ---------------------------------------------------------------- the problems of what was found
def problems(k, S, cfg):
    s = S.case('Initialized')
    n = 0
    for l in ('rust', 'python'):
        f = readable(S, 'html', l, cfg)
        memo = {}
        on = lambda x: rules.assume_by(x, f, memo)
        final = on(s.on(S.store('trees')[2]))
        docs = on(s.on(S.store('documents')[2]))
        where = 'problems of a scan (%s)' % l
        for c, mb, uri, lst, e in c19.lists(S, s):
            n += 1
            c = on(c)
            src = on(mb[0].a[0]) if len(mb) == 1 and mb[0].k == 'elem' else None
            t = tm.payload(tm.mget(final, tm.mk('agg', S.lang_adt, tm.VN[S.lang_adt].index('Template'))))
            if not k.ob('problems:each:' + l, src is not None and (src is t or src is on(t)), 'the problems of each template of the final map are sent', where, rules.flat(src) if src is not None else str(len(mb))):
                continue
            k.ob('problems:every:' + l, rules.implies(TRUE, c), 'no template is left out', where, tm.shown(c, 3)[-300:])
            k.ob('problems:uri:' + l, uri is tm.field(mb[0], '()', 0, 0), 'problems are sent under the URI of their template', where, rules.flat(uri))
            lst2 = on(lst)
            qs = set()
            for bs, g, y in rules.elements(S, lst2, TRUE, on=on):
                for b in bs:
                    qs |= {q for q in rules.through(S, b) if q.k == 'call' and str(q.a[0]).startswith('fn:')}
            qs = {q for q in qs if str(q.a[0]).split('::')[-1] in ('objects_query', 'templates_query')}
            names = {str(q.a[0]).split('::')[-1] for q in qs}
            k.ob('problems:of:' + l, names == {'objects_query', 'templates_query'}, 'the variables and templates used are looked for', where, str(sorted(names)))
            its = set()
            for q in sorted(qs, key=lambda t: t.id):
                its |= {x for y in q.a[2:5] for x in tm.subterms(y) if x.k == 'elem' and on(x.a[0]) is src}
            # one entry of the map: the one the problems are sent for
            k.ob('problems:entry:' + l, one_entry(its, src, on), "a template's problems are looked for in its own tree", where, ', '.join(sorted(rules.flat(i) for i in its)))
            for q in sorted(qs, key=lambda t: t.id):
                tr, tx = q.a[2], q.a[4]
                ok = ok2 = False
                for el in its:
                    ur = tm.field(el, '()', 0, 0)
                    ok = ok or on(tr) in (on(tm.field(el, '()', 0, 1)), on(tm.payload(tm.mget(src, ur))))
                    ok2 = ok2 or tx.k == 'call' and tx.a[0] == 'text' and on(tx.a[1]) is on(tm.payload(tm.mget(docs, ur)))
                k.ob('problems:tree:' + l, ok, "a template's problems are looked for in its own tree", where, rules.flat(q))
                k.ob('problems:text:' + l, ok2, "a template's problems are looked for in its own text", where, rules.flat(q))
    k.floor('lists of problems', n, 2)
