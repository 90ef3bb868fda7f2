"""C20: configuration comes from the editor first, then the first valid config file."""
import itertools
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup

RULE = ('The next value of every field of the configuration after each kind of message is derived from the source as a '
        'function of: options present / valid, and for each of the three files readable / empty / parses.  It is specialised '
        'to every combination of these (and must depend on nothing else) and compared with the precedence rule.  Then the '
        'configuration used by the stored files must only ever become this one, and the scan must be given exactly it.')

FILES = ('pyproject.toml', 'Cargo.toml', 'jinja-lsp.toml')


def configs(S):
    """{prefix of the place: {field: (lv, init, step)}} of every configuration in the worker's state"""
    out = {}
    for (r, p), v in S.state.items():
        if p and p[-1][0] == 'f' and p[-1][1].split('::')[-1] == 'JinjaConfig':
            out.setdefault((r, p[:-1]), {})[tm.FN[p[-1][1]][0][p[-1][3]]] = v
        elif v[1].k == 'agg' and v[1].a[0].split('::')[-1] == 'JinjaConfig':
            adt = v[1].a[0]
            for i, n in enumerate(tm.FN[adt][0]):
                out.setdefault((r, p), {})[n] = tuple(tm.field(x, adt, 0, i) for x in v)
    return out


def in_files(S, key):
    return any(x[0] == 'f' and x[1] == S.files_adt for x in key[1])


def check(k):
    S = k.server()
    cs = configs(S)
    own = {p: f for p, f in cs.items() if not in_files(S, p)} or cs
    if not k.ob('place', len(own) == 1, 'the worker keeps one configuration', 'worker', str(len(own))):
        return
    place, cfg = list(own.items())[0]
    adt = [a for a in tm.FN if a.split('::')[-1] == 'JinjaConfig'][0]
    names = tm.FN[adt][0]
    k.floor('configuration fields', len(cfg), 4)
    k.ob('fields', set(cfg) == set(names), 'every field of the configuration is kept', 'worker', str(sorted(set(names) ^ set(cfg))))
    initial(k, S, cfg)
    initialize(k, S, cfg, adt)
    change(k, S, cfg, adt)
    for v in S.variants:
        if v in ('Initialize', 'DidChangeConfiguration'):
            continue
        c = S.case(v)
        for f, (lv, init, step) in sorted(cfg.items()):
            if place in cs and in_files(S, place) and v == 'Initialized':
                continue
            k.ob('kept:%s:%s' % (v, f), unchanged(c.on(step), lv), '%s does not change the configuration' % v, v, rules.flat(c.on(step)))
    use(k, S, cs, place, cfg, adt)


def initial(k, S, cfg):
    lv, init, step = cfg['user_defined']
    k.ob('initial', init is tm.FF, 'before anything is configured the configuration is not user defined', 'worker', rules.flat(init))


def field_of(x, adt, f):
    return tm.field(x, adt, 0, tm.FN[adt][0].index(f))


def classify(t, opts):
    """('options',), ('bad-options',), ('unreadable', f), ('empty', f), ('bad', f) or None"""
    while t.k == 'bool' and isinstance(t.a[0], tm.T):
        t = t.a[0]
    if t.k == 'isv':
        if t.a[0] is opts:
            return ('options', t.a[1])
        if t.a[0].k == 'call' and t.a[0].a[0].split('::')[-1] in ('from_value', 'from_str', 'from_slice', 'deserialize'):
            f = file_in(t.a[0])
            if f is not None:
                return ('bad', t.a[1], f)
            if tm.contains(t.a[0], lambda u: u is tm.payload(opts)):
                return ('bad-options', t.a[1])
    f = file_in(t)
    if f is not None and (t.k == 'empty' or t.a and t.a[0] == 'empty'):
        return ('empty', f)
    if f is not None and (t.k == 'no_content' or t.a and t.a[0] == 'no_content'):
        return ('unreadable', f)
    return None


def file_in(t):
    fs = {x.a[0] for x in tm.subterms(t) if x.k == 'str' and x.a[0].endswith('.toml')}
    return fs.pop() if len(fs) == 1 else None


def support(x):
    """the atoms that decide between the alternatives of x"""
    return {ATOMS[i] for i in rules_sup(x)}


def rules_sup(x):
    if not isinstance(x, tm.T):
        return sup(x)
    if x.k == 'bool':
        return sup(tm.nb(x))
    out = set()
    if x.k == 'gv':
        for g, y in x.a:
            out |= set(sup(g)) | set(rules_sup(y))
    return out


def initialize(k, S, cfg, adt):
    s = S.case('Initialize')
    opts = rules.sel(s.param(0), ('InitializeParams', 'initialization_options'))
    where = 'Initialize'
    kinds = {}
    for f, (lv, init, step) in sorted(cfg.items()):
        x = s.on(step)
        for t in support(x):
            if t is lv or any(u is lv for u in tm.subterms(t)):
                continue
            c = classify(t, opts)
            if k.ob('depends:' + f, c is not None, 'the configuration depends only on the options and the files', where, tm.show(t, 4)):
                kinds[t] = c
    files = sorted({c[-1] for c in kinds.values() if c[0] in ('bad', 'empty', 'unreadable')})
    k.ob('files', files == sorted(FILES), 'the three files are searched', where, str(files))
    k.ob('options', {c[0] for c in kinds.values()} >= {'options', 'bad-options', 'bad'}, 'the options come first and may be invalid', where, str(sorted({c[0] for c in kinds.values()})))
    n = 0
    for o in ('none', 'bad', 'good'):
        for st in itertools.product(('unreadable', 'empty', 'bad', 'good'), repeat=len(FILES)):
            val = dict(zip(FILES, st))
            if o == 'good' and st != ('good',) * 3 and st != ('unreadable',) * 3:
                continue
            n += 1
            want = 'options' if o == 'good' else next((f for f in FILES if val[f] == 'good'), None)

            def at(t, o=o, val=val):
                c = kinds.get(t)
                if c is None:
                    return None
                if c[0] == 'options':
                    return (o != 'none') == (c[1] == 1)
                if c[0] == 'bad-options':
                    return (o == 'bad') == (c[1] == 1)
                if c[0] == 'bad':
                    return (val.get(c[2]) != 'good') == (c[1] == 1)
                if c[0] == 'empty':
                    return val.get(c[1]) in ('empty', 'unreadable')
                return val.get(c[1]) == 'unreadable'
            for f, (lv, init, step) in sorted(cfg.items()):
                x = rules.assume_by(s.on(step), at, {})
                got = source(x, lv, f, adt, opts)
                ok = got == ('kept' if want is None else want) or f == 'user_defined' and want is not None and x is tm.TT
                k.ob('precedence:%s:%s:%s' % (f, o, '/'.join(st)), ok, 'options %s, files %s: %s comes from %s' % (o, '/'.join(st), f, want or 'before'), where, '%s: %s' % (got, rules.flat(x)))
    k.floor('combinations', n, 100)


def unchanged(x, lv):
    return x is lv or tm.nb(x) == tm.nb(lv)


def source(x, lv, f, adt, opts):
    """where a value of the field comes from"""
    if unchanged(x, lv):
        return 'kept'
    if x.k != 'f' or x.a[1] != adt or tm.FN[adt][0][x.a[3]] != f:
        return None
    n = file_in(x)
    if n is not None:
        return n
    if tm.contains(x, lambda u: u is tm.payload(opts)):
        return 'options'
    return None


def change(k, S, cfg, adt):
    s = S.case('DidChangeConfiguration')
    where = 'DidChangeConfiguration'
    given = rules.sel(s.param(0), ('DidChangeConfigurationParams', 'settings'))
    lits = set()
    for f, (lv, init, step) in cfg.items():
        for t in support(s.on(step)):
            if t is lv or any(u is lv for u in tm.subterms(t)):
                continue
            ok = t.k == 'isv' and t.a[0].k == 'call' and t.a[0].a[0].split('::')[-1] == 'from_value' and any(u is given for u in t.a[0].a[1:])
            if k.ob('change:depends:' + f, ok, 'a changed configuration depends only on what was sent', where, tm.show(t, 4)):
                lits.add(t)
    k.ob('change:parsed', len(lits) >= 1 and len({t.a[0] for t in lits}) == 1, 'what was sent is parsed', where, str(len(lits)))
    for good in (True, False):
        def at(t):
            return ((t.a[1] == 1) != good) if t in lits else None
        for f, (lv, init, step) in sorted(cfg.items()):
            x = rules.assume_by(s.on(step), at, {})
            if good:
                ok = x is tm.TT if f == 'user_defined' else x.k == 'f' and x.a[1] == adt and tm.FN[adt][0][x.a[3]] == f and tm.contains(x, lambda u: u is given)
                k.ob('change:valid:' + f, ok, 'a valid configuration replaces the previous one', where, rules.flat(x))
            else:
                k.ob('change:invalid:' + f, unchanged(x, lv), 'an invalid configuration leaves the previous one', where, rules.flat(x))
        if good:
            vi = S.variants.index('Initialized')
            g = [rules.assume_by(e.cond, at, {}) for e in s.events if rules.is_send(e) and rules.chan_of(e.args[0]) is S.main and e.args[1].k == 'agg' and e.args[1].a[1] == vi]
            k.ob('change:rescan', any_of(g) is TRUE, 'a valid configuration leads to a new scan', where, tm.shown(any_of(g), 3))


def use(k, S, cs, place, cfg, adt):
    """the configuration the stored files are used with"""
    for p, f in cs.items():
        if p is place or p == place:
            continue
        for v in S.variants:
            c = S.case(v)
            for n, (lv, init, step) in sorted(f.items()):
                x = c.on(step)
                src = cfg.get(n)
                vals = {y for g, y in tm.cases(x)}
                if x.k == 'bool':
                    vals = {x}
                ok = unchanged(x, lv) or v == 'Initialized' and all(same_value(y, lv) or src is not None and same_value(y, src[0]) for y in vals)
                if x.k == 'bool' and not ok:
                    ok = v == 'Initialized' and between(tm.nb(x), tm.nb(lv), tm.nb(src[0]))
                k.ob('used:%s:%s' % (v, n), ok, 'the files are used with the current configuration', v, rules.flat(x))
                if v == 'Initialized' and src is not None:
                    k.ob('taken:' + n, rules.uses(S, x, src[0]) or x is src[0] or contains_atom(x, src[0]), 'a scan puts the current configuration to use', v, rules.flat(x))
    # the scan is given the configuration
    s = S.case('Initialized')
    t, b = cfg['templates'][0], cfg['backend'][0]
    roots = [e for e in s.events if e.kind == 'call' and e.name.split('::')[-1] == 'new' and 'WalkDir' in e.name]
    roots = roots or [e for e in S.a.events if e.kind == 'call' and 'WalkDir' in e.name]
    ws = [x for e in roots for x in rules.through(S, *[a for a in e.args if isinstance(a, tm.T)])]
    k.ob('scan', any(x is t for x in ws) and any(x is b for x in ws), 'the scan starts from the directories of the current configuration', 'Initialized', str([e.name for e in roots]))


def same_value(y, lv):
    return y is lv


def contains_atom(x, lv):
    return x.k == 'bool' and any(ATOMS[i] is lv or tm.contains(ATOMS[i], lambda t: t is lv) for i in sup(tm.nb(x)))


def between(x, a, b):
    """x is a or b in every case"""
    return AND(x, AND(NOT(a), NOT(b))) is FALSE and AND(NOT(x), AND(a, b)) is FALSE
