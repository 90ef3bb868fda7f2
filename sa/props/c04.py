"""C04: handlers hand each message to the worker once, unmodified, at once."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of

RULE = ('The value flow of every handler of the LanguageServer trait is followed from the object main makes.  For each handler that has a '
        'message kind, the sends it does on the main queue are collected with their conditions: exactly one, '
        'unconditional, of that kind, with the parameters the handler was given, awaited before anything else and not '
        'from a spawned task.  The worker must be the only receiver, take messages only by waiting for the next one, '
        'and handle each document message by changing the state of the same document in its own task.')


def squash(s):
    return s.replace('_', '').lower()


def check(k):
    S = k.server()
    kinds = {squash(v): v for v in S.variants}
    n = 0
    for m, (v, cond, evs, key) in sorted(S.a.handlers.items()):
        var = kinds.get(squash(m))
        if var is None:
            continue
        n += 1
        ctx = (('handler', m),)
        evs = [e for e in S.events if e.ctx[:1] == ctx]
        sends = [e for e in evs if rules.is_send(e)]
        vi = S.variants.index(var)
        good = [e for e in sends if e.ctx == ctx and rules.chan_of(e.args[0]) is S.main and not e.loops]
        k.ob('once:' + m, bool(sends) and len(good) == len(sends) and all(AND(a.cond, b.cond) is FALSE for i, a in enumerate(good) for b in good[:i]),
             '%s puts exactly one message on the queue, itself' % m, key, 'sends: %s' % [(tm.show(e.args[1], 3), e.span) for e in sends])
        if not good:
            continue
        e = good[0]
        k.ob('always:' + m, any_of([x.cond for x in good]) is TRUE, '%s sends whatever its parameters' % m, e.span, tm.shown(e.cond, 3))
        for e in good:
            bad = []
            for g, msg in tm.cases(e.args[1]):
                if msg.k != 'agg' or msg.a[0] != S.msg_adt or msg.a[1] != vi:
                    bad.append('sends ' + tm.show(msg, 3))
                    continue
                fs = [x for x in msg.a[2:] if not (x.k == 'call' and x.a[0] == 'otx')]
                if not fs and var == 'Initialized':
                    continue
                if len(fs) != 1 or fs[0] is not tm.sym('params'):
                    bad.append('sends ' + rules.flat(msg))
            k.ob('message:' + m, not bad, '%s sends a %s message with its own parameters, unmodified' % (m, var), e.span, '; '.join(bad))
            name = e.name.split('::')[-1]
            k.ob('wait-for-place:' + m, name == 'send', '%s waits for a place in the queue, nothing is dropped when it is full' % m, e.span, name)
        aw = [x for x in evs if x.ctx == ctx and x.kind == 'call' and x.name == 'await']
        res = [e.res for e in good]
        first = [x for x in aw if any(r in [y for g, y in tm.cases(x.args[0])] for r in res)]
        before = aw[:aw.index(first[0])] if first else aw
        k.ob('first:' + m, bool(first) and not before and any_of([x.cond for x in first]) is TRUE,
             '%s waits for nothing before its message is in the queue' % m, e.span,
             'first waits for ' + (tm.show(aw[0].args[0], 3) if aw else 'nothing: the send is never awaited'))
        k.ob('spawn:' + m, not any(x.kind == 'call' and 'spawn' in x.name.split('::')[-1] for x in evs),
             '%s hands nothing to a background task' % m, e.span)
    k.floor('handlers with a message kind', n, 12)
    reqs = set(kinds) - {squash(m) for m in S.a.handlers}
    k.ob('senders', reqs <= {'codeactions'}, 'every message kind an editor causes has a handler', '', str(reqs))
    # the worker takes every message, one by one
    takes = [e for e in S.events if e.kind == 'call' and e.args and rules.rx_of(e.args[0]) is S.main and e.name.split('::')[-1] not in ('close',)]
    k.ob('one-receiver', len(takes) == 1 and takes[0].name.split('::')[-1] == 'recv', 'messages are taken from the queue at one place, by waiting for the next one',
         takes[0].span if takes else '', str([(e.name, e.span) for e in takes]))
    k.ob('loop', bool(takes) and bool(takes[0].loops) and takes[0].cond is not FALSE, 'the next message is taken in a loop')
    # each is applied to the operation of its kind, in the worker itself, with its own parameters
    for ext in rules.EXTS:
        s = S.scene('DidOpen', ext)
        d0, d1 = s.before('documents'), s.after('documents')
        item = rules.sel(s.param(), ('DidOpenTextDocumentParams', 'text_document'))
        uri, text = rules.sel(item, ('TextDocumentItem', 'uri')), rules.sel(item, ('TextDocumentItem', 'text'))
        ok = d1.k == 'put' and d1.a[0] is d0 and d1.a[1] is uri and d1.a[2].k == 'call' and d1.a[2].a[0] == 'rope' and d1.a[2].a[1] is text
        k.ob('apply:DidOpen:' + ext, ok, 'an open notification stores the opened text', '', rules.flat(s.nice(d1)))
        s = S.scene('DidChange', ext, True)
        d0, d1 = s.before('documents'), s.after('documents')
        u = rules.sel(s.param(), ('DidChangeTextDocumentParams', 'text_document'), ('VersionedTextDocumentIdentifier', 'uri'))
        lst = rules.sel(s.param(), ('DidChangeTextDocumentParams', 'content_changes'))
        ok = d1 is not d0 and rules.uses(S, d1, lst) and rules.uses(S, d1, u)
        k.ob('apply:DidChange:' + ext, ok, 'a change notification changes the stored text of its document by its changes', '', rules.flat(s.nice(d1)))
        s = S.scene('DidSave', ext, True)
        u = rules.sel(s.param(), ('DidSaveTextDocumentParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))
        sd = [e for e in s.own if rules.is_send(e) and rules.chan_of(e.args[0]) is S.diag[0] and tm.contains(e.args[1], lambda t: t is u)]
        k.ob('apply:DidSave:' + ext, len(sd) >= 1, 'a save notification leads to the problems of its document, in the worker itself', '', str(len(s.own)))
    c = S.case('DidChangeConfiguration')
    st = [lv for (r, p), (lv, i, step) in S.state.items() if rules.uses(S, c.on(step), c.param())]
    k.ob('apply:DidChangeConfiguration', bool(st), 'a configuration change reaches the configuration', '', '')
    k.ob('complete', not S.a.notes, 'the whole program was analysed', '', '; '.join(S.a.notes[:5]))
