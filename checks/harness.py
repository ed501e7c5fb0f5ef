"""Shared driver: obligations, verdicts, known findings, evidence."""
import json, os, sys, time, traceback
import db as _db
VERIF = _db.VERIF

class Check:
    def __init__(self, pid, rule):
        self.pid = pid; self.rule = rule; self.t0 = time.time()
        self.obs = []            # (rule, where, ok, detail, key)
        self.analysed = {}; self.unknown = []; self.assumptions = []; self.selftests = []
        self.min_counts = {}; self.skipped = {}
    def ok(self, rule, where, detail=''): self.obs.append((rule, where, True, detail, None))
    def bad(self, rule, where, detail, key):
        """where: file:line (function); key: stable identity of the construct (no line numbers)."""
        for o in self.obs:
            if o[4] == key and o[0] == rule: return
        self.obs.append((rule, where, False, detail, key))
    def ob(self, cond, rule, where, detail, key):
        if cond: self.ok(rule, where, detail)
        else: self.bad(rule, where, detail, key)
    def skip(self, rule, where, why):
        self.skipped[rule] = self.skipped.get(rule, 0) + 1
        self.unknown.append('%s: %s: %s' % (rule, where, why))
    def count(self, name, n=1): self.analysed[name] = self.analysed.get(name, 0) + n
    def need(self, rule, n):
        """At least n obligations of this rule must exist, otherwise the check has lost its anchor."""
        self.min_counts[rule] = n
    def assume(self, s): self.assumptions.append(s)
    def selftest(self, name, good):
        self.selftests.append((name, bool(good)))

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        try: seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: seed = 1
        known = load_known(self.pid)
        viol, kf = [], []
        for r, w, ok, d, k in self.obs:
            if ok: continue
            (kf if (r + '|' + k) in known else viol).append((r, w, d, k))
        lost = []
        per = {}
        for r, w, ok, d, k in self.obs: per[r] = per.get(r, 0) + 1
        for r, n in self.min_counts.items():
            if per.get(r, 0) + self.skipped.get(r, 0) < n: lost.append('%s: %d obligations found, at least %d expected' % (r, per.get(r, 0), n))
        for n, g in self.selftests:
            if not g: lost.append('self-test failed: ' + n)
        ev = {'property': self.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
              'coverage': {'explanation': self.rule, 'obligations': len(self.obs), 'discharged': sum(1 for o in self.obs if o[2]),
                           'per_rule': per, 'analysed': self.analysed, 'undecided': self.unknown[:60], 'undecided_count': len(self.unknown),
                           'known_findings': [k for _, _, _, k in kf], 'selftests': [n for n, g in self.selftests if g],
                           'samples': [{'rule': r, 'where': w, 'detail': d[:160]} for r, w, ok, d, k in self.obs if ok][:25]},
              'assumptions': self.assumptions,
              'violations': [{'rule': r, 'where': w, 'detail': d, 'key': k} for r, w, d, k in viol],
              'wall_s': round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d obligations (%d discharged, %d undecided) in %.1fs' % (self.pid, len(self.obs), ev['coverage']['discharged'], len(self.unknown), ev['wall_s']))
        for r in sorted(per): print('  %-44s %d' % (r, per[r]))
        for r, w, d, k in kf:
            print('KNOWN-FINDING: property=%s %s at %s: %s' % (self.pid, r, w, d))
        if viol:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for r, w, d, k in viol: f.write('%s\n  at   %s\n  why  %s\n  key  %s|%s\n' % (r, w, d, r, k))
            for r, w, d, k in viol: print('  violated %s at %s: %s   [%s|%s]' % (r, w, d, r, k))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if lost:
            for l in lost: print('CHECK-ERROR property=%s %s' % (self.pid, l))
            return 3
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt'); out = set()
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % pid):
                # known: property=C01 key=<rule|key> :: text
                rest = line.split('key=', 1)[1]
                out.add(rest.split(' :: ', 1)[0].strip())
    return out


def main(fn, pid):
    try:
        c = fn()
        rc = c.finish()
    except _db.CheckError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e)); rc = 3
    except Exception:
        traceback.print_exc(); print('CHECK-ERROR property=%s internal error' % pid); rc = 3
    sys.stdout.flush()
    return rc
