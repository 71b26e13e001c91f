"""Obligation bookkeeping, evidence files, known findings and exit codes."""
import json, os, sys, time, traceback
from .build import VERIF, AnalysisError, Workspace
from .absbits import Undecided

OK, BAD, UND = 'ok', 'violation', 'undecided'


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # (rule, instance, status, detail, where)
        self.analysed = {}     # counts
        self.notes = []

    def ok(self, rule, inst, detail='', where=''):
        self.obl.append((rule, str(inst), OK, detail, where))

    def bad(self, rule, inst, detail, where=''):
        self.obl.append((rule, str(inst), BAD, detail, where))

    def und(self, rule, inst, detail='', where=''):
        self.obl.append((rule, str(inst), UND, detail, where))

    def put(self, status, rule, inst, detail='', where=''):
        self.obl.append((rule, str(inst), status, detail, where))

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def decided(self, rule=None):
        return sum(1 for o in self.obl if o[2] != UND and (rule is None or o[0] == rule))

    def need(self, rule, n):
        """Rule instances confirmed by hand: fewer means the anchors vanished, not that it holds."""
        k = sum(1 for o in self.obl if o[0] == rule)
        if k < n:
            self.und(rule, 'anchors', 'matched %d instances, %d were confirmed by hand: the rest is not decided' % (k, n))


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].strip().split(' | '))
                out.append(d)
    return out


def run(pid, fn, rules, technique):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ws = Workspace()
    try:
        r = Report(pid)
        r.tier = tier
        try:
            fn(ws, r)
        except AnalysisError as e:
            if e.fatal:
                raise
            r.und('analysis', 'anchors', str(e))
            print('%s: analysis stopped early: %s' % (pid, e))
        except Undecided as e:
            r.und('analysis', 'anchors', str(e))
            print('%s: analysis stopped early: %s' % (pid, e))
        except Exception as e:
            r.und('analysis', 'internal', repr(e))
            traceback.print_exc()
            print('%s: analysis stopped early: internal error' % pid)
        viol = [o for o in r.obl if o[2] == BAD]
        known = []
        for k in known_findings():
            if k.get('property') != pid:
                continue
            hit = [o for o in viol if o[0] == k['rule'] and o[1] == k['instance']]
            if hit:
                known.append((k, hit))
                viol = [o for o in viol if o not in hit]
        und = [o for o in r.obl if o[2] == UND]
        ok = [o for o in r.obl if o[2] == OK]
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': technique,
                'obligations': len(r.obl), 'discharged': len(ok), 'undecided': len(und),
                'violated': len(viol), 'rules': rules, 'analysed': r.analysed,
                'obligations_per_rule': {q: sum(1 for o in r.obl if o[0] == q)
                                         for q in dict.fromkeys(o[0] for o in r.obl)},
                'samples': [{'rule': o[0], 'instance': o[1], 'status': o[2], 'detail': o[3], 'where': o[4]}
                            for o in ok[:4] + ok[len(ok)//2:len(ok)//2 + 3] + ok[-3:]],
                'undecided_instances': ['%s | %s | %s %s' % (o[0], o[1], o[3], o[4]) for o in und[:40]],
                'notes': r.notes,
            },
            'wall_s': round(time.time() - t0, 2),
        }
        if viol:
            ev['violations'] = len(viol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print('%s: %d obligations, %d discharged, %d undecided, %d violated; analysed %s (%.1fs)' % (
            pid, len(r.obl), len(ok), len(und), len(viol), r.analysed, time.time() - t0))
        for q in dict.fromkeys(o[0] for o in r.obl):
            s = [o for o in r.obl if o[0] == q]
            print('  rule %-42s %4d instances, %d ok, %d undecided' % (
                q, len(s), sum(o[2] == OK for o in s), sum(o[2] == UND for o in s)))
        for o in und[:10]:
            print('  undecided: %s | %s | %s %s' % (o[0], o[1], o[3], o[4]))
        for k, hit in known:
            print('KNOWN-FINDING: property=%s %s [%s | %s]' % (pid, k.get('what', ''), k['rule'], k['instance']))
        if viol:
            rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
            with open(rp, 'w') as f:
                for o in viol:
                    f.write('rule: %s\ninstance: %s\nwhere: %s\nfinding: %s\n\n' % (o[0], o[1], o[4], o[3]))
            for o in viol[:12]:
                print('  %s: %s | %s | %s' % (o[4] or '?', o[0], o[1], o[3]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        return 0
    except AnalysisError as e:
        print('ANALYSIS-ERROR %s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR %s: internal error' % pid)
        return 4
    finally:
        ws.close()
