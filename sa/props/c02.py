"""C02: wait-for graph of the tasks."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom

RULE = ('Every await, bounded send, blocking call and loop exit of every task that the whole-program run reaches is '
        'collected.  Tasks and the things they wait for form a graph: a bounded send waits for the task that receives, '
        'a reply waits for the task that holds the sender.  The two workers may not be on a cycle, may not sleep, block '
        'their thread or wait for an answer of the editor, and may leave their loop only when the queue is closed.')

NOTIFY = ('log_message', 'show_message', 'publish_diagnostics', 'telemetry_event', 'send_notification', 'publish_diagnostics_raw')
BLOCKING = ('thread::sleep', 'Mutex::lock', 'RwLock::read', 'RwLock::write', 'Condvar::wait', 'Barrier::wait',
            'Receiver::blocking_recv', 'Sender::blocking_send', 'UnboundedReceiver::blocking_recv', 'Runtime::block_on',
            'Handle::block_on', 'task::block_in_place', 'JoinHandle::join', 'thread::park', 'Child::wait', 'executor::block_on',
            'mpsc::Receiver::recv_timeout', 'Stdin::read_line', 'io::stdin::lines', 'thread::yield_now', 'hint::spin_loop',
            'Notify::notified', 'Semaphore::acquire', 'Mutex::blocking_lock', 'RwLock::blocking_read', 'RwLock::blocking_write')


def task_name(ctx):
    c = ctx[-1]
    return c[1].split('::{')[0].split('::')[-1] if c[0] == 'spawn' else ':'.join(c)


def check(k):
    S = k.server()
    w, d = S.wctx, S.diag[1]
    work = {w: 'message worker', d: 'diagnostics worker'}
    k.stats['tasks'] = len(S.tasks())
    # where each receiver of each queue runs
    recv_at = {}
    for e in S.events:
        if e.kind == 'call' and e.name.split('::')[-1] in ('recv', 'recv_many', 'blocking_recv') and e.args:
            ch = rules.rx_of(e.args[0])
            if ch is not None:
                recv_at.setdefault(ch, set()).add(e.ctx)
    # where each reply sender is handed to
    holder = {}
    for e in S.events:
        if rules.is_send(e) and len(e.args) > 1:
            ch = rules.chan_of(e.args[0])
            for t in tm.subterms(e.args[1]):
                if t.k == 'call' and t.a[0] in ('tx', 'otx') and t.a[1].k == 'chan' and ch is not None:
                    holder.setdefault(t.a[1], set()).add(ch)
    tasks = S.tasks()
    edges = {}
    nw = 0

    def edge(a, b, why, e):
        edges.setdefault(a, {}).setdefault(b, (why, e))

    def targets_of_chan(ch):
        r = set()
        for c in recv_at.get(ch, ()):
            r.add(c)
        return r

    for e in S.events:
        if e.kind != 'call' or e.name != 'await':
            continue
        f = e.args[0]
        nw += 1
        key = '%s:%s' % (task_name(e.ctx), e.fn())
        in_worker = e.ctx in work
        for g, x in tm.cases(f):
            c = AND(g, e.cond)
            if c is FALSE:
                continue
            if x.k == 'call' and x.a[0] == 'recv':
                ch = rules.rx_of(x.a[1])
                if in_worker:
                    own = S.main if e.ctx == w else S.diag[0]
                    k.ob('recv:' + key, ch is own, 'a worker waits for messages of its own queue only', e.span, tm.show(x, 4))
                continue
            if x.k == 'call' and x.a[0] == 'send':
                ch = rules.chan_of(x.a[1])
                if ch is not None:
                    for t in targets_of_chan(ch):
                        edge(e.ctx, t, 'waits for a place in the queue received by %s' % task_name(t), e)
                    k.ob('send-await:' + key, True, 'a wait for a place in a queue', e.span)
                elif in_worker:
                    # a sender kept in the worker's state: any queue it may come from
                    chs = sender_chans(S, x.a[1])
                    for ch in chs:
                        for t in targets_of_chan(ch):
                            edge(e.ctx, t, 'waits for a place in the queue received by %s' % task_name(t), e)
                    k.ob('send-await:' + key, bool(chs), 'the queue a worker waits for is known', e.span, tm.show(x.a[1], 4))
                continue
            ch = rules.rx_of(x) if x.k == 'call' else None
            if ch is not None:
                # an answer: whoever receives the queue the sender was put on, or the task that keeps it
                for q in holder.get(ch, ()):
                    for t in targets_of_chan(q):
                        edge(e.ctx, t, 'waits for an answer of %s' % task_name(t), e)
                if e.ctx in work:
                    k.ob('answer:' + key, bool(holder.get(ch)), 'the answer a worker waits for has a known sender', e.span, tm.show(x, 4))
                continue
            if x.k == 'call' and x.a[0] == 'task':
                for ctx, t in tasks.items():
                    if t[1] is x.a[1]:
                        edge(e.ctx, ctx, 'joins %s' % task_name(ctx), e)
                        # a joined task's waits are the joiner's waits
                if in_worker:
                    k.ob('join:' + key, False, 'a worker does not wait for another task to end', e.span, tm.show(x, 3))
                continue
            if not in_worker:
                continue
            name = x.a[0] if x.k == 'call' else tm.show(x, 2)
            if '::' in name and name.split('::')[-2] == 'Client' and name.split('::')[-1] in NOTIFY:
                k.ob('notify:%s:%s' % (key, name.split('::')[-1]), True, 'sending a notification needs no answer of the editor', e.span)
                continue
            k.ob('await:%s:%s' % (key, name), False,
                 'a worker waits only for its queue, a place in a queue, or a notification to be written', e.span,
                 'waits for ' + tm.show(x, 4))
    k.floor('await points', nw, 25)
    # cycles through a worker
    for s in work:
        seen, stack, par = set(), [s], {}
        cyc = None
        while stack and cyc is None:
            n = stack.pop()
            for m, (why, e) in edges.get(n, {}).items():
                par.setdefault(m, (n, why, e))
                if m == s:
                    cyc = (n, why, e)
                    break
                if m not in seen:
                    seen.add(m)
                    stack.append(m)
        detail = ''
        where = ''
        if cyc:
            n, why, e = cyc
            where = e.span
            chain = ['%s %s (%s)' % (task_name(n), why, e.span)]
            guard = 0
            while n != s and guard < 10:
                n0, why0, e0 = par[n]
                chain.append('%s %s (%s)' % (task_name(n0), why0, e0.span))
                n = n0
                guard += 1
            detail = ' <- '.join(chain)
        k.ob('cycle:' + work[s], cyc is None, 'the %s is on no cycle of the wait-for graph' % work[s], where, detail)
    k.stats['wait edges'] = sum(len(v) for v in edges.values())
    # blocking calls in async code
    nb = 0
    for e in S.events:
        if e.kind != 'call' or e.name == 'await':
            continue
        nb += 1
        n = e.name
        if any(n.endswith('::' + b) or n == b for b in BLOCKING) and not (e.ctx == (('main',),) and n.endswith('block_on')):
            k.ob('blocking:%s:%s' % (e.fn(), n.split('::')[-1]), False, 'no task blocks its thread', e.span, n)
    k.floor('calls looked at', nb, 100)
    # the loops end only with their queue
    for ctx, recv in ((w, S.recv), (d, S.diag[2])):
        t = tasks.get(ctx)
        ok = t is not None and t[4] is not None
        if k.ob('task:' + work[ctx], ok, 'the %s is a spawned task that serves a loop' % work[ctx]):
            got = atom(tm.mk('isv', recv, 1))
            c = AND(t[4], got)
            k.ob('exit:' + work[ctx], c is FALSE, 'the %s stops only when its queue is closed' % work[ctx], str(ctx[-1][2]),
                 'also stops when: ' + tm.shown(c, 4)[:400])
        r = [e for e in S.events if e.ctx == ctx and e.kind == 'call' and e.name == 'await' and e.args[0].k == 'call' and e.args[0].a[0] == 'recv']
        k.ob('loop:' + work[ctx], bool(r) and all(e.loops for e in r), 'the %s receives in a loop' % work[ctx])
    # unbounded self feeding: the workers don't wait, but nobody may recurse into the evaluator unseen
    k.ob('complete', not S.a.notes, 'the whole program was analysed', '', '; '.join(S.a.notes[:5]))


def sender_chans(S, t):
    """queues a stored sender can belong to: every sender that is ever stored in the worker's state"""
    out = set()
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        for y in tm.subterms(x):
            if y.k == 'call' and y.a[0] in ('tx', 'otx') and y.a[1].k == 'chan':
                out.add(y.a[1])
            if y.k == 'lv' and y in S.a.lvinfo and y not in seen:
                seen.add(y)
                init, step, bs = S.a.lvinfo[y]
                todo += [init, step]
    return out
