"""C07: opening, changing or saving always refreshes the diagnostics."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of

RULE = ('For open and save notifications of every kind of document the value flow shows that a list of problems for '
        'that document is always put on the diagnostics queue, that the recorded variables are replaced by ones '
        'extracted from the current text, without regard to the old ones, and that open, save and scan use the same '
        'extractors.  For change notifications a follow up save of the same document is always scheduled: the spawned '
        'task only sleeps a constant time and then puts it on the message queue; a scheduled task is aborted only '
        'under the key of the document for which another one is stored by the same message.  The diagnostics worker '
        'publishes once for every document it receives.')

URI = {'DidOpen': (('DidOpenTextDocumentParams', 'text_document'), ('TextDocumentItem', 'uri')),
       'DidChange': (('DidChangeTextDocumentParams', 'text_document'), ('VersionedTextDocumentIdentifier', 'uri')),
       'DidSave': (('DidSaveTextDocumentParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))}


def current(S, s, var, uri):
    if var == 'DidOpen':
        return rules.sel(s.param(), ('DidOpenTextDocumentParams', 'text_document'), ('TextDocumentItem', 'text'))
    return tm.call('text', tm.payload(tm.mget(s.before('documents'), uri)))


def extractors(ts, text=None):
    return {t.a[0] for t in ts if t.k == 'call' and isinstance(t.a[0], str) and t.a[0].startswith('fn:') and (text is None or text in t.a)}


def errors_of(S, t):
    """the map of problems in a message to the diagnostics worker"""
    if t.k == 'agg' and t.a[0] == S.diag_adt and tm.VN[S.diag_adt][t.a[1]] == 'Errors':
        return t.a[2]
    return None


def check(k):
    S = k.server()
    rules.trees_invariant(k, S)
    used = {}
    for var in ('DidOpen', 'DidSave'):
        for ext in rules.EXTS:
            s = S.scene(var, ext, True)
            uri = rules.sel(s.param(), *URI[var])
            text = current(S, s, var, uri)
            # problems are always sent
            sends = [e for e in s.own if rules.is_send(e) and rules.chan_of(e.args[0]) is S.diag[0]]
            errs = []
            for e in sends:
                for g, v in tm.cases(e.args[1]):
                    m = errors_of(S, v)
                    if m is not None:
                        for h, x in tm.cases(m):
                            errs.append((AND(e.cond, AND(g, h)), x, e))
            good = [(c, x, e) for c, x, e in errs if c is not FALSE and x.k == 'put' and x.a[0].k == 'emap' and x.a[1] is uri]
            k.ob('sent:%s:%s' % (var, ext), any_of([c for c, x, e in good]) is TRUE, '%s of a document always leads to a list of its problems' % var,
                 errs[0][2].span if errs else S.worker[2].span, 'otherwise: %s' % [rules.flat(x, 200) for c, x, e in errs if (c, x, e) not in good][:3] + tm.shown(NOT(any_of([c for c, x, e in good])), 3)[:200])
            ts = rules.through(S, *[x.a[2] for c, x, e in good])
            ex = extractors(ts, text)
            used.setdefault((ext, 'problems'), {})[var] = ex
            k.ob('problems:%s:%s' % (var, ext), bool(ex) and ex == extractors(ts), 'the problems are computed from the current text', errs[0][2].span if errs else '', 'extractors: %s of %s' % (sorted(ex), sorted(extractors(ts))))
            # variables
            b, a = s.before('variables'), s.after('variables')
            there = lambda t: (t.a[1] == 1) if t.k == 'isv' and t.a[0].k == 'get' and t.a[0].a[0] is b and t.a[0].a[1] is uri else None
            if a is None:
                k.ob('variables:%s:%s' % (var, ext), False, '%s re-extracts the variables' % var)
                continue
            new = rules.assume_by(tm.mget(a, uri), there)
            old = tm.payload(tm.mget(b, uri))
            vs = rules.through(S, new)
            k.ob('afresh:%s:%s' % (var, ext), old not in vs and b not in vs, 'the variables after %s do not depend on those before' % var, '', rules.flat(s.nice(new)))
            vx = extractors(vs, text)
            used.setdefault((ext, 'variables'), {})[var] = vx
            k.ob('variables:%s:%s' % (var, ext), bool(vx) and vx == extractors(vs), '%s extracts the variables from the current text' % var, '', 'extractors: %s of %s' % (sorted(vx), sorted(extractors(vs))))
            # nothing recorded only where the text decides it
            absent = rules.assume_by(tm.mget(a, uri), lambda t: None if there(t) is None else not there(t))
            for nm, x in (('kept', new), ('absent', absent)):
                bad = []
                for g, v in tm.cases(x):
                    inner = tm.payload(v) if v is not tm.NONE else None
                    if inner is not None and extractors(rules.through(S, inner), text):
                        continue
                    if not extractors(set(tm.subterms(g)), text):
                        bad.append(rules.flat(v, 100) + ' if ' + tm.shown(s.nice(g), 3)[:150])
                k.ob('always:%s:%s:%s' % (var, ext, nm), not bad, '%s records nothing only when the current text decides so' % var, '', '; '.join(bad))
    for (ext, what), d in sorted(used.items()):
        k.ob('alike:%s:%s' % (ext, what), len({frozenset(v) for v in d.values()}) == 1, 'open and save use the same extractors for %s' % what, '', str({a: sorted(b) for a, b in d.items()}))
    for ext in rules.EXTS:
        k.ob('apart:%s' % ext, used[(ext, 'variables')]['DidOpen'] and used[(ext, 'problems')]['DidOpen'], 'extractors are known')
    kinds = {e: frozenset(used[(e, 'variables')]['DidOpen']) for e in rules.EXTS}
    k.ob('languages', all((kinds[a] == kinds[b]) == (rules.EXTS[a] == rules.EXTS[b]) for a in kinds for b in kinds), 'each language has its own extractors', '', str({a: sorted(b) for a, b in kinds.items()}))
    change(k, S)
    publish(k, S)
    k.floor('document kinds', len(rules.EXTS), 5)


def change(k, S):
    n = 0
    for ext in rules.EXTS:
        s = S.scene('DidChange', ext, True)
        uri = rules.sel(s.param(), *URI['DidChange'])
        spawns = [e for e in s.own if e.kind == 'call' and e.name.split('::')[-1] == 'spawn']
        ok = bool(spawns) and any_of([e.cond for e in spawns]) is TRUE
        k.ob('scheduled:' + ext, ok, 'a change always schedules a refresh', spawns[0].span if spawns else S.worker[2].span,
             'not when ' + tm.shown(s.nice(NOT(any_of([e.cond for e in spawns]))), 3)[:300])
        for e in s.events:
            if len(e.ctx) <= len(S.wctx):
                continue
            if e.kind == 'call' and e.name == 'await':
                f = e.args[0]
                good = f.k == 'call' and (f.a[0] == 'send' or 'sleep' in f.a[0] and constant(f))
                n += 1
                k.ob('task:%s:%s' % (ext, f.a[0].split('::')[-1] if f.k == 'call' else f.k), good, 'the scheduled task waits only for a fixed time and a place in the queue', e.span, rules.flat(f))
        follow = [e for e in s.events if len(e.ctx) > len(S.wctx) and rules.is_send(e) and rules.chan_of(e.args[0]) is S.main]
        bad = []
        c = FALSE
        for e in follow:
            m = e.args[1]
            if m.k == 'agg' and m.a[0] == S.msg_adt and S.variants[m.a[1]] == 'DidSave' and rules.sel(m.a[2], *URI['DidSave']) is uri and not e.loops[len(S.worker[2].loops):]:
                c = OR(c, e.cond)
            else:
                bad.append(rules.flat(s.nice(m), 200))
        k.ob('follow:' + ext, bool(follow) and c is TRUE and not bad, 'the scheduled task always has the document checked', follow[0].span if follow else '',
             '; '.join(bad) or 'not when ' + tm.shown(s.nice(NOT(c)), 3)[:300])
        b, a = s.before('diagnostics_task'), s.after('diagnostics_task')
        k.ob('kept:' + ext, a is not None and all(v.k == 'put' and v.a[0] is b and v.a[1] is uri and v.a[2].k == 'call' and v.a[2].a[0] == 'task' for g, v in tm.cases(a)),
             'the scheduled task is stored under its document', '', rules.flat(s.nice(a)) if a is not None else 'not stored')
    # nothing else cancels
    for var in S.variants:
        for ext in list(rules.EXTS) + [None]:
            s = S.scene(var, ext, False)
            for e in s.events:
                if e.kind == 'call' and e.name.split('::')[-1] in ('abort', 'abort_all', 'shutdown_background') and ('Handle' in e.name or 'JoinSet' in e.name):
                    n += 1
                    good = False
                    if var in URI and var == 'DidChange' and s.before('diagnostics_task') is not None:
                        uri = rules.sel(s.param(), *URI[var])
                        b, a = s.before('diagnostics_task'), s.after('diagnostics_task')
                        good = e.args[0] is tm.payload(tm.mget(b, uri)) and a is not None and all(
                            AND(g, e.cond) is FALSE or v.k == 'put' and v.a[0] is b and v.a[1] is uri for g, v in tm.cases(a))
                    k.ob('cancel:%s:%s:%s' % (var, ext, e.fn()), good, 'a pending refresh is cancelled only when the same document schedules another', e.span, rules.flat(s.nice(e.args[0])))
    k.floor('waits and cancellations of refreshes', n, 10)


def constant(f):
    return not any(t.k in ('lv', 'f') or t.k == 'sym' and t.a[0] not in () for t in tm.subterms(f))


def publish(k, S):
    ch, ctx, recv = S.diag
    got = {tm.mk('isv', recv, 1): True}
    got.update(rules.literals(S.receivers(ch)[0].cond))
    got.update(rules.variant_lits(tm.payload(recv), S.diag_adt, 'Errors'))
    pubs = []
    memo = {}
    for e in S.events:
        if e.ctx == ctx and e.kind == 'call' and e.name.split('::')[-1] == 'publish_diagnostics':
            c = rules.assume(e.cond, got, memo)
            if c is not FALSE:
                pubs.append((e, c))
    m = tm.field(tm.payload(recv), S.diag_adt, tm.VN[S.diag_adt].index('Errors'), 0)
    base = len(S.receivers(ch)[0].loops)
    ok = []
    for e, c in pubs:
        inner = e.loops[base:]
        if len(inner) == 1 and inner[0][0] is not None:
            el = inner[0][0]
            if el.k == 'elem' and el.a[0] is m:
                ok.append((e, c))
    k.ob('published', bool(ok), 'every received document is published in turn', pubs[0][0].span if pubs else '', str([(e.span, [str(b[0]) for b in e.loops]) for e, c in pubs]))
    for e, c in ok:
        # only an URI that is none can stop a publication
        left = [a for a in rules.literals(c)] if c is not TRUE else []
        k.ob('published:always', c is TRUE or all(uri_atom(S, t, m) for t in atoms_of(c)), 'a document is published whatever its problems are', e.span, tm.shown(c, 3)[:300])
    aw = [e for e in S.events if e.ctx == ctx and e.kind == 'call' and e.name == 'await' and any(e.args[0] is p.res for p, c in pubs)]
    k.ob('published:awaited', bool(aw) and len(aw) >= len(pubs), 'publications are carried out')


def atoms_of(c):
    from bdd import sup, ATOMS
    return [ATOMS[i] for i in sup(c)]


def uri_atom(S, t, m):
    """the document's key isn't an URI"""
    return tm.contains(t, lambda y: y.k == 'call' and isinstance(y.a[0], str) and y.a[0] == 'bad_url') and not extractors(set(tm.subterms(t)))
