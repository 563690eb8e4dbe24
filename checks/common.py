"""Obligations, verdicts, evidence."""
import json, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (VERIF, os.path.join(VERIF, 'tools')):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.setrecursionlimit(40000)

import facts                                                    # noqa: E402
from engine import interp, models, session, logic, terms as t   # noqa: E402
from engine.interp import Undecided, Panic                      # noqa: E402
from engine.models import deep                                 # noqa: E402
from engine.terms import TRUE, FALSE                            # noqa: E402


class Check:
    """Collects what one run of one check establishes."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obl = {}          # rule name -> [proved, violated, open]
        self.violations = {}   # key -> details
        self.opens = []
        self.samples = []
        self.counts = {}
        self.fns = set()
        self.assumptions = []

    # -- recording

    def _c(self, rule):
        return self.obl.setdefault(rule, [0, 0, 0])

    def held(self, rule, sample=None):
        self._c(rule)[0] += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append('%s: %s' % (rule, str(sample)[:300]))

    def broken(self, rule, subject, message, where=None, witness=None):
        """subject: what breaks the rule, without line numbers."""
        self._c(rule)[1] += 1
        key = '%s|%s' % (rule, subject)
        v = self.violations.setdefault(key, {'rule': rule, 'subject': str(subject), 'message': message,
                                             'where': sorted(where) if where else [], 'witness': witness, 'times': 0})
        v['times'] += 1

    def unknown(self, rule, subject, why):
        self._c(rule)[2] += 1
        if len(self.opens) < 60:
            self.opens.append('%s | %s | %s' % (rule, str(subject)[:160], str(why)[:400]))

    def ensure(self, rule, cond, subject, message, where=None):
        if cond:
            self.held(rule, subject)
        else:
            self.broken(rule, subject, message, where)
        return cond

    def prove(self, rule, subject, premises, goal, message, where=None, samples=()):
        """samples: inputs (substitutions) to look for a witness with, if the general question stays open."""
        if '%s|%s' % (rule, subject) in self.violations:
            return 'violated'
        if self.violations and time.time() - self.t0 > 90:
            self.unknown(rule, subject, 'left: the property is violated anyway')
            return 'unknown'
        v, w = logic.prove(premises, goal, depth=1 if samples else 10)
        if v == 'unknown' and samples:
            for m in samples:
                sub = [t.subst(p, m, fix=True) for p in premises]
                g = t.subst(goal, m, fix=True)
                if FALSE in sub or g is TRUE:
                    continue
                v1, w1 = logic.prove(sub, g)
                if v1 == 'violated':
                    v, w = v1, (w1 or []) + list(m.items())
                    break
            else:
                v, w = logic.prove(premises, goal)
        if v == 'proved':
            self.held(rule, subject)
        elif v == 'violated':
            self.broken(rule, subject, message, where, logic.show_witness(w))
        else:
            self.unknown(rule, subject, logic.show_witness(w) if w != 'budget' else 'budget')
        return v

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # -- reporting

    def known(self):
        """Keys of listed findings of this property."""
        out = {}
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                pre = 'finding: property=%s ' % self.pid
                if l.startswith(pre):
                    key, _, what = l[len(pre):].partition(' :: ')
                    out[key.strip()] = what.strip()
        return out

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = os.environ.get('VERIF_SEED', '1')
        seed = int(seed) if seed.lstrip('-').isdigit() else 1
        known = self.known()
        listed = {k: v for k, v in self.violations.items() if k in known}
        new = {k: v for k, v in self.violations.items() if k not in known}
        tot = [sum(v[i] for v in self.obl.values()) for i in range(3)]
        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': sum(tot), 'discharged': tot[0],
                'undecided': tot[2],
                'rules': {k: {'proved': v[0], 'violated': v[1], 'undecided': v[2]} for k, v in sorted(self.obl.items())},
                'functions_analysed': len(self.fns),
                'functions': sorted(self.fns)[:80],
                'analysed': self.counts,
                'samples': self.samples,
                'undecided_obligations': self.opens,
                'violations': [dict(v, key=k) for k, v in self.violations.items()],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        d = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d violated, %d undecided, %d functions, %.1f s' % (
            self.pid, sum(tot), tot[0], tot[1], tot[2], len(self.fns), ev['wall_s']))
        for o in self.opens[:3]:
            print("  UNDECIDED", o[:200])
        for k in sorted(listed):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k] or k))
        if new:
            rp = os.path.join(d, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for k, v in sorted(new.items()):
                    f.write('%s\n  rule: %s\n  subject: %s\n  at: %s\n' % (v['message'], v['rule'], v['subject'],
                                                                        ', '.join(v['where']) or '-'))
                    if v['witness']:
                        f.write('  when: %s\n' % v['witness'])
                    f.write('\n')
            for k, v in sorted(new.items())[:10]:
                print('  %s\n    %s at %s' % (v['message'], v['subject'][:300], ', '.join(v['where'])[:300] or '-'))
                if v['witness']:
                    print('    when %s' % v['witness'][:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


_prog = {}


def program(unit, crate):
    k = (unit, crate)
    if k not in _prog:
        _prog[k] = interp.Program(facts.load(unit, crate))
    return _prog[k]


def engine(prog, extra=None, **kw):
    m = models.Models()
    if extra is not None:
        m.extra = extra
    return interp.Interp(prog, m, **kw)


class Late(BaseException):
    pass


def main(pid, table):
    """Runs one check; the answer is always 0 or 1."""
    fn, rule = table[pid]
    c = Check(pid, rule)

    def late(*_):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('VERIF_LIMIT', '600')))
    try:
        fn(c)
    except facts.BuildFailure as e:
        c.unknown('build', 'the tree', str(e)[-600:])
        print(str(e)[-3000:])
    except session.Missing as e:
        c.unknown('anchor', str(e), 'what the property is about cannot be found: %s' % e)
    except (interp.Undecided, RecursionError) as e:
        c.unknown('analysis', 'whole property', repr(e))
    except Late:
        c.unknown('analysis', 'whole property', 'out of time')
    except Exception as e:                   # an analysis error is not evidence of a violation
        traceback.print_exc()
        c.unknown('analysis', 'whole property', repr(e))
    signal.alarm(0)
    sys.stdout.flush()
    return c.finish()
