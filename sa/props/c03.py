"""C03: every request gets exactly the answer computed for it."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of

RULE = ('For every request handler the value it returns is followed back to the reply channel it made itself: with a '
        'reply it must be that reply, successfully, without one the empty answer, never an error.  In the worker every '
        "use of a request's reply sender is collected with its condition: at most one per path, in the worker's own "
        "turn (no inner loop, not kept for later), with a value that comes only from the request's "
        'own parameters, the stored files and the configuration.  Where the answer is a value some operation of the '
        'file store computed, an answer is sent exactly when that operation yields one, and it is that one.')

REQUESTS = ('initialize', 'completion', 'hover', 'goto_definition', 'code_action', 'document_symbol')
DIRECT = {'GoToDefinition': 1, 'CodeAction': 1, 'DocumentSymbol': 1}
LOST = {'forget', 'leak', 'into_raw'}
NOANSWER = {'Initialize': 'InitializeResult'}


def squash(s):
    return s.replace('_', '').lower()


def otx_of(S, var):
    """index of the reply sender among the fields of a message kind"""
    vi = S.variants.index(var)
    adt = S.prog.adts[S.msg_adt]
    tys = adt['crate'].types
    for i, (n, t) in enumerate(adt['variants'][vi]['f']):
        if tys[t]['k'] == 'adt' and 'oneshot::Sender' in tys[t]['p']:
            return i
    return None


def check(k):
    S = k.server()
    kinds = {squash(v): v for v in S.variants}
    n = 0
    for m in REQUESTS:
        h = S.a.handlers.get(m)
        if not k.ob('handler:' + m, h is not None, '%s has a handler' % m):
            continue
        v, cond, evs, key = h
        var = kinds.get(squash(m))
        if not k.ob('kind:' + m, var is not None, '%s has a message kind' % m):
            continue
        n += 1
        k.ob('returns:' + m, cond is TRUE, '%s always returns' % m, key, tm.shown(cond, 3)[:300])
        sent = [e for e in S.events if e.ctx == (('handler', m),) and rules.is_send(e) and rules.chan_of(e.args[0]) is S.main]
        chans = set()
        for e in sent:
            for t in tm.subterms(e.args[1]):
                if t.k == 'call' and t.a[0] == 'otx':
                    chans.add(t.a[1])
        if not k.ob('channel:' + m, len(chans) == 1, '%s sends one reply channel along' % m, key, str(len(chans))):
            continue
        ch = list(chans)[0]
        k.ob('own-channel:' + m, any(e.ctx == (('handler', m),) and e.kind == 'call' and e.name.split('::')[-1] == 'channel' and tm.contains(e.res, lambda t: t is ch) for e in S.events),
             '%s makes the reply channel itself' % m, key)
        got = tm.call('await', tm.call('orx', ch))
        a1 = rules.assume_by(v, lambda t: got_is(t, got, True))
        a0 = rules.assume_by(v, lambda t: got_is(t, got, False))
        okv = tm.field(got, tm.RES, 0, 0)
        k.ob('reply:' + m, is_ok(a1) and a1.a[2] is okv, '%s returns the reply it receives' % m, key, rules.flat(a1))
        k.ob('no-reply:' + m, is_ok(a0) and empty(a0.a[2], m), '%s returns the empty answer when there is no reply' % m, key, rules.flat(a0))
    k.floor('request handlers', n, 6)
    for m, (v, cond, evs, key) in S.a.handlers.items():
        if m not in REQUESTS:
            k.ob('never-error:' + m, all(x.k != 'agg' or x.a[0] != tm.RES or x.a[1] == 0 for g, x in tm.cases(v)), '%s never answers with an error' % m, key, rules.flat(v))
    # the worker
    base = len(S.worker[2].loops)
    n = 0
    for m in REQUESTS + ('initialized', 'execute_command'):
        var = kinds.get(squash(m))
        if var is None:
            continue
        oi = otx_of(S, var)
        if not k.ob('sender:' + var, oi is not None, '%s carries a reply sender' % var):
            continue
        c = S.case(var)
        tx = c.param(oi)
        uses = [e for e in c.events if rules.is_send(e) and e.args and tm.contains(e.args[0], lambda t: t is tx)]
        for e in uses:
            n += 1
            k.ob('own-turn:%s:%s' % (var, e.fn()), len(e.loops) == base and e.args[0] is tx,
                 "a reply is sent at most once per request", e.span, str(e.ctx[len(S.wctx):]))
            if var == 'Initialized':
                continue
            alien = [t for x in (e.args[1],) for t in tm.subterms(x) if t.k == 'call' and t.a[0] == 'await' and t is not S.recv]
            k.ob('own-result:%s:%s' % (var, e.fn()), not alien, 'the answer does not come from anything else that is received', e.span, rules.flat(alien[0]) if alien else '')
            lvs = [t for t in tm.subterms(e.args[1]) if t.k == 'lv' and t in S.a.lvinfo and t.a[1:] in S.state and S.state[t.a[1:]][0] is t]
            strange = [t for t in lvs if not t.a[2] or not any(st[0] == 'f' and st[1] in (S.files_adt, S.cfg_adt) for st in t.a[2])]
            k.ob('own-state:%s:%s' % (var, e.fn()), not strange, 'the answer comes from the parameters, the stored files and the configuration', e.span,
                 'also from ' + rules.flat(rules.rewrite(strange[0], S.names)) if strange else '')
        for i, a in enumerate(uses):
            for b in uses[:i]:
                k.ob('once:%s:%s' % (var, a.fn()), AND(a.cond, b.cond) is FALSE, 'at most one reply is sent to a request', a.span)
        kept = [lv for (r, p), (lv, init, step) in S.state.items() if tm.contains(c.on(step), lambda t: t is tx)]
        k.ob('not-kept:' + var, not kept, 'no request is put off', '', str([rules.flat(rules.rewrite(x, S.names)) for x in kept]))
        moved = [e for e in c.events if e.kind == 'call' and e.name.split('::')[-1] in ('push', 'insert', 'push_back', 'extend') and
                 any(tm.contains(x, lambda t: t is tx) for x in e.args)]
        lost = [e for e in c.events if e.kind == 'call' and e.name.split('::')[-1] in LOST | {'new'} and (e.name.split('::')[-1] in LOST or 'ManuallyDrop' in e.name) and
                any(tm.contains(x, lambda t: t is tx) for x in e.args)]
        k.ob('not-lost:' + var, not lost, 'a reply sender that is not used is dropped, which answers the request', lost[0].span if lost else '')
        k.ob('not-moved:' + var, not moved, 'no request is handed on', moved[0].span if moved else '')
        if var == 'Initialize':
            k.ob('always:' + var, bool(uses) and any_of([e.cond for e in uses]) is TRUE, 'initialize is always answered', '', '')
        if var in DIRECT:
            direct(k, S, var, uses)
    k.floor('replies', n, 8)


def direct(k, S, var, uses):
    """the answer is the result of an operation of the file store"""
    for ext in ('html', 'py', None):
        for known in (False, True):
            s = S.scene(var, ext, known)
            on = s.on
            alts = [(on(e.cond), e.args[1]) for e in uses]
            has = FALSE
            vals = []
            for c, v in alts:
                v = on(v)
                has = OR(has, AND(c, tm.nb(tm.is_some(v)) if isinstance(tm.is_some(v), tm.T) else tm.is_some(v)))
                for g, x in tm.cases(v):
                    if AND(c, g) is not FALSE and x is not tm.NONE:
                        vals.append((AND(c, g), tm.payload(x)))
            ret = [e for e in s.events if e.kind == 'local' and e.ctx == S.wctx and e.e.extra is not None]
            best = None
            for e in reversed(ret):
                r = e.res
                if not isinstance(r, tm.T):
                    continue
                some = on(AND(e.cond, tm.nb(tm.is_some(r)) if isinstance(tm.is_some(r), tm.T) else tm.is_some(r)))
                if not equal(some, has):
                    continue
                if all(v is rules.assume(on(tm.payload(r)), {}) or tm.prune(on(tm.payload(r)), c) is v or v is tm.prune(tm.payload(r), c) for c, v in vals):
                    best = e
                    break
            if has is FALSE:
                # nothing to answer in this case: the operation that is asked must yield nothing either
                ops = [e for e in ret if e.fn() == S.worker[2].fn() and any(x is s.param(0) for x in e.args)]
                k.ob('nothing:%s:%s:%s' % (var, ext, known), bool(ops) and any(e.res is tm.NONE or (e.cond is FALSE) for e in ops), 'no answer is computed for such a %s' % var, '', '')
                continue
            ok = best is not None and from_params(S, best, s)
            k.ob('exactly:%s:%s:%s' % (var, ext, known), ok, '%s is answered exactly when a result was computed, with that result' % var, uses[0].span if uses else '',
                 'no operation yields a result exactly when %s is sent' % [rules.flat(v, 200) for c, v in vals][:3])


def equal(a, b):
    return a is b or AND(a, NOT(b)) is FALSE and AND(b, NOT(a)) is FALSE


def from_params(S, e, s):
    """the operation was given the request's own parameters, or what an earlier one made of them"""
    p = s.param(0)
    return any(tm.contains(x, lambda t: t is p) for x in e.args)


def got_is(t, got, ok):
    if t.k == 'isv' and t.a[0] is got:
        return (t.a[1] == 0) == ok if t.a[1] in (0, 1) else None
    return None


def is_ok(v):
    return v.k == 'agg' and v.a[0] == tm.RES and v.a[1] == 0


def empty(v, m):
    if m == 'initialize':
        # the default value: nothing is announced
        return v.k == 'agg' and v.a[0].endswith('InitializeResult')
    return v is tm.NONE
