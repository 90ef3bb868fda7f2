"""Runs one property's rule, compares with the known findings, writes the evidence and the verdict."""
import json
import os
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading
import importlib


class Check(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []        # (key, ok, what, where, detail)
        self.notes = []
        self.stats = {}
        self._seen = set()

    def ob(self, key, ok, what, where='', detail=''):
        """an obligation; key identifies it without line numbers"""
        self.obs.append((key, bool(ok), what, where, detail if not ok else ''))
        return bool(ok)

    def floor(self, what, n, least):
        """enough of the construct the rule is about was found"""
        self.stats[what] = n
        self.ob('floor:' + what, n >= least, 'at least %d of: %s' % (least, what), '', 'found %d' % n)

    def note(self, s):
        self.notes.append(s)

    # shared analyses
    def server(self):
        import rules
        if not hasattr(self, '_server'):
            self._server = rules.Server()
        return self._server

    def node(self):
        import program
        if not hasattr(self, '_node'):
            self._node = program.node()
            self._node.a = self._node
            self._node.state = {}
        return self._node


def known():
    """{(property, key): text} from the known findings file"""
    out = {}
    p = os.path.join(ROOT, 'known-findings')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property='):
                r = l[len('finding: property='):]
                pid, rest = r.split(' ', 1)
                key, _, text = rest.partition(' :: ')
                out[(pid, key.strip())] = text.strip()
    return out


def run(pid, tier):
    t0 = time.time()
    k = Check(pid, tier)
    try:
        m = importlib.import_module('props.' + pid.lower())
        m.check(k)
    except (Exception, SystemExit) as e:
        import rules
        tb = traceback.format_exc()
        if isinstance(e, rules.Missing):
            k.ob('anchor:' + str(e), False, 'the rule applies to the source', '', 'not found: ' + str(e))
        else:
            k.ob('analysis', False, 'the source can be analysed', '', tb[-1500:])
    kn = known()
    bad, finds = {}, {}
    for key, ok, what, where, detail in k.obs:
        if ok:
            continue
        if (pid, key) in kn:
            finds[key] = (what, where, detail)
        else:
            bad.setdefault(key, (what, where, detail))
    for key in finds:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, key)]))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': getattr(sys.modules.get('props.' + pid.lower()), 'RULE', 'rule not loaded'),
            'obligations': len(k.obs),
            'discharged': sum(1 for o in k.obs if o[1]),
            'known_findings': sorted(finds),
            'counts': k.stats,
            'checked': [{'key': o[0], 'what': o[2], 'where': o[3], 'holds': o[1]} for o in k.obs][:400],
            'notes': k.notes,
        },
        'wall_s': round(wall, 2),
    }
    if hasattr(k, '_server'):
        a = k._server.a
        ev['coverage']['analysed'] = {'bodies': len(a.visited), 'of': len(a.prog.bodies), 'steps': a.steps, 'events': len(a.events)}
    if hasattr(k, '_node'):
        a = k._node
        ev['coverage']['analysed_node'] = {'bodies': len(a.visited), 'of': len(a.prog.bodies), 'steps': a.steps, 'events': len(a.events), 'exports': sorted(a.exports)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ep = os.path.join(ROOT, 'evidence', pid + '.json')
    if bad:
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        rp = os.path.join('replay', pid + '.json')
        with open(os.path.join(ROOT, rp), 'w') as f:
            json.dump([{'key': key, 'rule': w, 'where': wh, 'detail': d} for key, (w, wh, d) in bad.items()], f, indent=1)
        for key, (what, where, detail) in bad.items():
            print('violated: %s | %s | %s | %s' % (key, what, where, str(detail)[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        ev['coverage']['violations'] = sorted(bad)
    with open(ep, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d hold, %.1fs' % (pid, len(k.obs), sum(1 for o in k.obs if o[1]), wall))
    return 1 if bad else 0


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    out = []

    def go():
        try:
            if pid == 'setup':
                import facts
                facts.produce()
                print('facts ready')
                out.append(0)
            else:
                out.append(run(pid, tier))
        except BaseException:
            traceback.print_exc()
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(840)
    if not out:
        if pid == 'setup':
            return 1
        print('VIOLATION property=%s replay=%s' % (pid, 'replay/none'))
        print('no verdict: the analysis did not finish')
        os._exit(1)
    return out[0]


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    r = main(sys.argv)
    sys.stdout.flush()
    os._exit(r)
