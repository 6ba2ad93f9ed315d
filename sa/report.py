"""Obligations, verdicts, evidence."""
import json
import os
import sys
import threading
import time
import traceback
from .tnet import Incomplete, DimError
from .interp import PyRaise

# seconds after which a check reports what it has (a check is given 900)
LIMIT = {'quick': 780, 'thorough': 4 * 3600}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    pass


def where_of(I, exc=None):
    """innermost frames of the analysed code"""
    w = list(getattr(exc, 'where', None) or []) if exc is not None else list(I.where)
    w = [(m, l) for m, l in w if m.startswith('acetn')]
    return ' > '.join(f'{m.replace(".", "/")}.py:{l}' for m, l in w[-4:])


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []           # (rule, construct, ok, detail)
        self.broken = []
        self.assumptions = []
        self.samples = []
        self.extra = {}
        self.t0 = time.time()
        self.expected = {}
        self.functions = {}

    def ob(self, rule, construct, ok, detail=''):
        self.obs.append((rule, str(construct), bool(ok), detail if not ok else ''))
        if ok and len(self.samples) < 12 and sum(1 for s in self.samples if s['rule'] == rule) < 2:
            self.samples.append({'rule': rule, 'construct': str(construct), 'discharged_by': str(detail)[:300] or 'equality of normal forms'})
        return ok

    def fail(self, rule, construct, detail):
        return self.ob(rule, construct, False, detail)

    def expect(self, rule, n):
        """the rule must have been applied to at least n constructs, else the analysis lost its subject"""
        self.expected[rule] = n

    def lost(self, why):
        self.broken.append(why)

    def covers(self, I):
        """record which functions of the code were analysed"""
        for f, n in I.calls.items():
            self.functions[f] = self.functions.get(f, 0) + n

    def attempt(self, rule, construct, fn, I=None):
        """run fn; a definite failure of the analysed code (a dimension mismatch, an exception it raises) violates the
        rule, an analysis limit is reported as such"""
        try:
            return True, fn()
        except DimError as e:
            self.fail(rule, construct, f'dimension mismatch: {e} [{where_of(I, e)}]')
        except PyRaise as e:
            self.fail(rule, construct, f'raises {e} [{where_of(I, e)}]')
        except Incomplete as e:
            self.lost(f'{rule} {construct}: {e} [{where_of(I, e)}]')
        return False, None

    def guarded(self, fn):
        try:
            fn()
        except (Incomplete, DimError, PyRaise) as e:
            self.lost(f'{type(e).__name__}: {e} at {getattr(e, "where", None)}')
            if os.environ.get('SA_TRACE'):
                traceback.print_exc()
        except RecursionError:
            self.lost('recursion limit')
        except Exception as e:
            traceback.print_exc()
            self.lost(f'internal error {type(e).__name__}: {e}')

    def parallel(self, tasks, jobs=None):
        """run independent parts of the analysis in forked workers and merge what they found, in order"""
        import pickle
        import tempfile
        jobs = min(jobs or int(os.environ.get('SA_JOBS', 0)) or os.cpu_count() or 1, 8, len(tasks))
        if jobs <= 1:
            for t in tasks:
                self.guarded(t)
            return
        r, w = os.pipe()
        for i in range(len(tasks)):
            os.write(w, i.to_bytes(2, 'big'))
        os.close(w)
        pids, outs = [], []
        sys.stdout.flush()
        for _ in range(jobs):
            f = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    import ctypes
                    ctypes.CDLL(None).prctl(1, 9)       # PR_SET_PDEATHSIG: no worker outlives the check
                    while True:
                        b = os.read(r, 2)
                        if len(b) < 2:
                            break
                        i = int.from_bytes(b, 'big')
                        self.obs, self.broken, self.samples, self.functions = [], [], [], {}
                        self.guarded(tasks[i])
                        f.write(pickle.dumps((i, (self.obs, self.broken, self.samples, self.functions))))
                        f.flush()
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
            outs.append(f)
        os.close(r)
        done = {}
        end = self.t0 + LIMIT.get(self.tier, LIMIT['quick'])
        late = False
        for pid, f in zip(pids, outs):
            while True:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if time.time() > end:
                    late = True
                    os.kill(pid, 9)
                    _, st = os.waitpid(pid, 0)
                    break
                time.sleep(0.02)
            if st:
                self.lost('out of time' if late else f'an analysis worker ended with status {st}')
            f.seek(0)
            while True:
                try:
                    i, x = pickle.load(f)
                except Exception:
                    break
                done[i] = x
            f.close()
        for i in range(len(tasks)):
            if i not in done:
                self.lost(f'part {i} of the analysis was not done')
                continue
            obs, broken, samples, functions = done[i]
            self.obs += obs
            self.broken += broken
            for s in samples:
                if len(self.samples) < 12 and sum(1 for x in self.samples if x['rule'] == s['rule']) < 2:
                    self.samples.append(s)
            for k, n in functions.items():
                self.functions[k] = self.functions.get(k, 0) + n

    # ---------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        bad = {}
        for rule, cons, ok, det in self.obs:
            if not ok:
                bad.setdefault((rule, cons), det)
        new, old = {}, {}
        for (rule, cons), det in bad.items():
            (old if known.get((rule, cons)) else new)[(rule, cons)] = det
        count = {}
        for rule, cons, ok, det in self.obs:
            c = count.setdefault(rule, [0, 0, set()])
            c[0] += 1
            c[1] += ok
            c[2].add(cons)
        for rule, n in self.expected.items():
            if len(count.get(rule, (0, 0, ()))[2]) < n:
                self.broken.append(f'rule {rule} found {len(count.get(rule, (0, 0, ()))[2])} of at least {n} constructs: its anchors are gone')
        if not self.obs:
            self.broken.append('no obligation was generated')
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis: the sources under /repo are parsed and abstractly interpreted (no code of /repo is '
                               'executed); each obligation compares a construct of the code with the rule named.',
                'obligations': len(self.obs), 'discharged': sum(1 for o in self.obs if o[2]),
                'rules': {r: {'obligations': c[0], 'discharged': c[1], 'constructs': len(c[2])} for r, c in count.items()},
                'functions_analysed': len(self.functions),
                'function_list': sorted(self.functions),
                'samples': self.samples, **self.extra},
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        if self.broken:
            ev['coverage']['analysis_broken'] = self.broken[:20]
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        print(f'{self.pid}: {ev["coverage"]["discharged"]}/{len(self.obs)} obligations discharged, '
              f'{len(self.functions)} functions analysed, {ev["wall_s"]:.1f} s')
        for (rule, cons), det in old.items():
            print(f'KNOWN-FINDING: property={self.pid} rule={rule} {cons}: {known[(rule, cons)]}')
        if new:
            p = os.path.join(HERE, 'evidence', self.pid + '.violation.txt')
            with open(p, 'w') as f:
                for (rule, cons), det in new.items():
                    f.write(f'rule {rule}\nconstruct {cons}\n{det}\n\n')
            for (rule, cons), det in list(new.items())[:8]:
                print(f'  {rule}: {cons}: {str(det)[:1500]}')
            print(f'VIOLATION property={self.pid} replay={p}')
            return 1
        if self.broken:
            for b in self.broken[:10]:
                print(f'ANALYSIS-BROKEN: {b}')
            return 2
        return 0


def load_known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d['property'] == pid:
                out[d['rule'], d['construct']] = d['what']
    return out


def watch(R):
    """an analysis that runs out of time reports what it has found so far"""
    time.sleep(LIMIT.get(R.tier, LIMIT['quick']) + 25)
    R.lost('out of time')
    sys.stdout.flush()
    code = R.finish()
    sys.stdout.flush()
    os._exit(code)


def main(argv):
    import importlib
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    R = Report(pid, tier)
    threading.Thread(target=watch, args=(R,), daemon=True).start()
    R.guarded(lambda: importlib.import_module('sa.checks.' + pid.lower()).run(R))
    return R.finish()
