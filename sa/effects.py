"""Every function any body refers to (called or passed on), and every struct or enum value it makes."""
import facts


def refs(prog):
    """(body key, place, path, crate of the function, called?)"""
    for k, b in sorted(prog.bodies.items()):
        for bl in b['blocks']:
            t = bl['t']
            ops = []
            if t['k'] == 'call':
                ops.append((t['f'], t.get('fs', b['span']), True))
                ops += [(o, t.get('fs', b['span']), False) for o in t['args']]
            for s in bl['st']:
                if 'l' in s:
                    r = s['r']
                    os_ = r['ops'] if r['k'] == 'agg' else [r['o']] if r['k'] in ('use', 'cast') else []
                    ops += [(o, s.get('s', b['span']), False) for o in os_]
            for o, sp, called in ops:
                if o.get('k') == 'fn':
                    for p in sorted({facts.norm(o['p']), facts.norm(o.get('r') or o['p'])}):
                        yield k, sp, p, o.get('crate', ''), called


def makes(prog):
    """(body key, place, adt path, variant name)"""
    for k, b in sorted(prog.bodies.items()):
        for bl in b['blocks']:
            for s in bl['st']:
                if 'l' in s and s['r']['k'] == 'agg' and s['r']['a'] == 'adt':
                    yield k, s.get('s', b['span']), s['r']['p'], s['r']['v']


def under(p, *mods):
    """the path, also inside <impl ...>, belongs to one of the modules"""
    return any(p == m or p.startswith(m + '::') or ('<' + m + '::') in p or (' ' + m + '::') in p or ('&' + m + '::') in p for m in mods)
