"""Whole program runs of the analysis: the language server and the node addon."""
import os
import sys
import facts
import ev
import models
import terms as tm
from bdd import TRUE


def calls_directly(prog, b, names):
    for bl in b['blocks']:
        if bl.get('c'):
            continue
        t = bl['t']
        if t['k'] == 'call' and t['f']['k'] == 'fn' and facts.short(facts.norm(t['f']['p'])) in names:
            return True
    return False


def callees(prog, b):
    """workspace bodies a body refers to: called, or closures it makes"""
    out = []
    for bl in b['blocks']:
        if bl.get('c'):
            continue
        t = bl['t']
        if t['k'] == 'call':
            ops = [t['f']] + t['args']
        else:
            ops = []
        for s in bl['st']:
            if 'l' in s:
                r = s['r']
                if r['k'] == 'agg':
                    if r['a'] in ('closure', 'coroutine'):
                        out.append(r['p'])
                    ops += r['ops']
                elif r['k'] == 'use':
                    ops.append(r['o'])
                elif r['k'] == 'cast':
                    ops.append(r['o'])
        for o in ops:
            if o.get('k') == 'fn':
                for k in (o['r'], o['p']):
                    if k in prog.bodies:
                        out.append(k)
                        break
    return out


def reach(prog, roots):
    seen = set()
    work = list(roots)
    while work:
        k = work.pop()
        if k in seen or k not in prog.bodies:
            continue
        seen.add(k)
        work.extend(callees(prog, prog.bodies[k]))
    return seen


def extractors(prog):
    """functions that walk query matches and change nothing their caller holds"""
    out = {}
    for k, b in prog.bodies.items():
        if b['kind'] not in ('fn', 'method'):
            continue
        if not calls_directly(prog, b, ('QueryCursor::matches', 'QueryCursor::captures')):
            continue
        tys = b['crate'].types
        if any(tys[b['locals'][i + 1][0]]['k'] == 'refmut' for i in range(b['argc'])):
            continue
        out[k] = b
    return out


class Run(object):
    """events of one analysed entry"""

    def __init__(self, an):
        self.an = an
        self.events = an.events


def server(cut=True, prog=None):
    """the language server, from main: tasks it spawns, then every handler on the object main makes"""
    prog = prog or facts.server()
    an = ev.Analysis(prog, models)
    if cut:
        an.cut = extractors(prog)
    mains = [k for k in prog.bodies if k.endswith('::main') and prog.bodies[k]['kind'] == 'fn']
    an.ctx = (('main',),)
    for k in mains:
        an.entry(k)
    an.handlers = {}
    for b, st, F in an.backends:
        for k, body in sorted(prog.bodies.items()):
            if body.get('trait') and 'LanguageServer' in body['trait'] or k.startswith('<') and ' as tower_lsp::LanguageServer>::' in k and body['kind'] in ('fn', 'method'):
                if '{closure' in k:
                    continue
                m = k.rsplit('::', 1)[1]
                an.ctx = (('handler', m),)
                e0 = len(an.events)
                st2 = dict(st)
                F2 = ev.Frame(an.fid('entry', k), body, (k,))
                args = [b] + [tm.sym('params')] * (body['argc'] - 1)
                for i in range(body['argc']):
                    st2[(F2.fid, i + 1)] = args[i]
                fut, c = an.run_body(F2, st2, TRUE)
                # the returned future is awaited by the transport
                cx = models.Cx(an, F2, 'await', '', '', (), [fut], st2, c, 'transport', body['span'], None)
                v = models.poll_value(cx, fut, 0)
                an.handlers[m] = (v, cx.cond, an.events[e0:], k)
    return an


# what callers of the addon pass, by place
PASSED = {
    'basic': ('content',), 'new': (), 'add_link_hints': ('self', 'uri', 'actions'), 'save_link_hint': ('self', 'actions', 'hint'),
    'remove_temp_link_hint': ('self', 'hint'), 'delete_all': ('self', 'filename'),
    'add_one': ('self', 'id', 'filename', 'content', 'line', 'ext', 'col'), 'get_variables': ('self', 'id', 'line'),
    'hover': ('self', 'id', 'filename', 'line', 'position'), 'complete': ('self', 'id', 'filename', 'line', 'position'),
    'goto_definition': ('self', 'id', 'filename', 'line', 'position'),
}


def node(cut=True, prog=None):
    """the node addon: every exported function on its own, with any object and any arguments"""
    prog = prog or facts.node()
    an = ev.Analysis(prog, models)
    if cut:
        an.cut = extractors(prog)
    an.exports = {}
    for k, b in sorted(prog.bodies.items()):
        if b['crate'].name != 'jinja_lsp_nodejs' or b['kind'] not in ('fn', 'method') or b['exp'] or k.startswith('<') or not b['pub']:
            continue
        m = k.rsplit('::', 1)[1]
        an.ctx = (('export', m),)
        e0 = len(an.events)
        names = PASSED.get(m, ())
        v, c, st = an.entry(k, [tm.sym(n) for n in names] if len(names) == b['argc'] else None)
        an.exports[m] = (v, c, st, an.events[e0:], k)
    return an


if __name__ == '__main__':
    import time
    t = time.time()
    a = server('--nocut' not in sys.argv)
    print('%.1fs' % (time.time() - t), a.steps, len(a.events), a.notes[:10])
    print(a.unknown)
    print(len(a.visited), 'of', len(a.prog.bodies))
