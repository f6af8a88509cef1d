"""check.py ID [quick|thorough] - decide one property on /repo's current source."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
T0 = time.time()
import props, facts, stages, diff
from terms import *
import terms as TM

try:
    import rules
except ImportError:
    rules = None

WALL = {'quick': 420, 'thorough': 780}


class Finding:
    """a violation: key without line numbers, text, place"""

    def __init__(self, prop, rule, where, what, spans=()):
        self.prop, self.rule, self.where, self.what, self.spans = prop, rule, where, what, list(spans)

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.where, self.what)


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = [p for p in props.P if p['id'] == pid][0]
        self.w = stages.World()
        self.w.deadline = T0 + WALL[tier]
        self.findings, self.undecided, self.discharged, self.samples = [], [], 0, []
        self.obligations = 0
        self.covered = {}
        self.notes = []

    # ---------------------------------------------------- stage obligations
    def anchors(self, st, seen=None):
        """stages that contain the code of st today"""
        if self.w.stable(st):
            return [st]
        if st in stages.PUBLIC:
            if self.w.fn('cur', st) is None:
                self.findings.append(Finding(self.pid, 'anchor', st, 'the public function %s no longer exists' % st))
            return []
        seen = set() if seen is None else seen
        out = []
        for c in stages.UNIT:
            if c in seen or c == st or stages.UNIT[c] == 3 and stages.UNIT[st] != 3:
                continue
            if self.w.fn('ref', c) is not None and st in stages.calls_of(self.w, 'ref', c):
                seen.add(c)
                out += self.anchors(c, seen)
        return out

    def stage(self, view, st):
        cur = self.anchors(st)
        if cur != [st]:
            self.notes.append('%s is decided in %s' % (st, ', '.join(cur) or 'nothing'))
        for s in cur:
            self.obligations += 1
            r = stages.compare(self.w, s, view)
            self.note(s, view, r)
            if not r.mis and not r.note:
                self.discharged += 1
                continue
            bad, open_ = self.drill(s)
            if not bad and not open_:
                self.notes.append('%s of %s: equal function by function' % (view, s))
                self.discharged += 1
                continue
            r = self.escalate(s, view, r)
            if r is None:
                # the stages that use it come out equal
                self.discharged += 1
                continue
            if not r.violated and bad and not open_ and '#' not in view:
                r = stages.Verdict(s, view, [m for q in bad for m in q.mis])
            if r.violated:
                ms = r.mis
                self.findings.append(Finding(self.pid, 'value graph (%s)' % view, s, '; '.join(m.text(4) for m in ms[:3]),
                                             [x for m in ms for x in m.spans()]))
            else:
                self.undecided.append('%s of %s: %s' % (view, s, r.note or '; '.join(m.text(3)[:300] for m in r.shape[:2])))

    def note(self, s, view, r):
        o = self.w.cache.get(('cur', s, ()))
        if o is not None and s not in self.covered:
            self.covered[s] = dict(file=o.fn.d.get('span', '') if isinstance(o.fn.d.get('span'), str) else '', functions=sorted(o.E.inlined), blocks=o.E.nblocks,
                                   calls=len(o.E.calls), panics=len(o.E.panics))

    def escalate(self, s, view, r):
        """a difference inside one stage may be made up for in another stage that changed too"""
        w = self.w
        changed = self.changed()
        other = [x for x in changed if x != s and self.related(s, x)]
        if not other:
            return r
        roots = [c for c in other if s in self.reach(c)] or [c for c in self.callers(s) if any(x in self.reach(c) for x in other)]
        if not roots:
            return r
        # smallest roots that contain all related changes
        roots.sort(key=lambda c: len(self.reach(c)))
        res = None
        for c in roots[:2]:
            vs = ['value', 'effects'] if view != 'errs' else ['errs']
            if view.startswith('text') and c not in ('gen_circom_string',):
                vs = ['value', 'effects']
            for v in vs:
                q = stages.compare(w, c, v, tuple(x for x in changed | {s} if x != c))
                self.notes.append('%s re-decided in %s (%s): %d differences' % (s, c, v, len(q.mis)))
                if q.mis or q.note:
                    if res is None or not q.violated:
                        res = q
        return res

    def drill(self, s):
        """compare the stage function by function: (definitely different, undecided)"""
        k = ('drill', s)
        w = self.w
        if k in w.cache:
            return w.cache[k]
        cur, ref = stages.locals_of(w, 'cur', s), stages.locals_of(w, 'ref', s)
        fs = [s] + sorted(f for f in cur & ref if f in w.locals(w.unit(s)))
        bad, open_ = [], []
        for f in fs:
            q = stages.compare(w, f, 'local', stages.ALLCUT)
            if (q.mis or q.note) and not q.violated and f != s:
                # with the helpers it calls made part of it
                r = stages.compare(w, f, 'local')
                if r.violated or not r.mis and not r.note:
                    q = r
            if q.mis or q.note:
                (bad if q.violated else open_).append(q)
        self.notes.append('%s, function by function: %d functions, differs in %s; undecided in %s' % (s, len(fs), [q.stage for q in bad], [q.stage for q in open_]))
        if os.environ.get('VERIF_DEBUG'):
            for q in bad + open_:
                print(q.stage, q.note, [m.text(5) for m in q.mis])
        w.cache[k] = (bad, open_)
        return w.cache[k]

    def changed(self):
        """stages whose value or effects differ"""
        if not hasattr(self, '_changed'):
            self._changed = set()
            us = {stages.UNIT[o.split(':')[1].split('#')[0]] for o in self.p['obl'] if o.split(':')[1].split('#')[0] in stages.UNIT} | ({0} if any(o[0] == 'T' for o in self.p['obl']) else set())
            for s in stages.UNIT:
                if stages.UNIT[s] in us and self.w.stable(s):
                    for v in ('value', 'effects'):
                        q = stages.compare(self.w, s, v)
                        if q.mis or q.note:
                            self._changed.add(s)
        return self._changed

    def reach(self, c):
        k = ('reach', c)
        if k not in self.w.cache:
            out, work = set(), [c]
            while work:
                x = work.pop()
                if self.w.fn('ref', x) is None:
                    continue
                for y in stages.calls_of(self.w, 'ref', x):
                    if y not in out:
                        out.add(y)
                        work.append(y)
            self.w.cache[k] = out
        return self.w.cache[k]

    def callers(self, s):
        return [c for c in stages.UNIT if c != s and s in self.reach(c)]

    def related(self, a, b):
        return a in self.reach(b) or b in self.reach(a) or any(b in self.reach(c) for c in self.callers(a))

    # ---------------------------------------------------- all obligations
    def run(self):
        for o in self.p['obl']:
            k, a = o.split(':', 1)
            if k == 'R':
                f = getattr(rules, a, None) if rules else None
                if f is None:
                    self.notes.append('rule %s is not available' % a)
                    continue
                try:
                    f(self)
                except diff.Timeout as e:
                    self.undecided.append('rule %s: out of time' % a)
                except Exception as e:
                    self.undecided.append('rule %s: %s: %s' % (a, type(e).__name__, str(e)[:200]))
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
            elif k == 'P':
                try:
                    rules.panics(self, a)
                except Exception as e:
                    self.undecided.append('panics of %s: %s: %s' % (a, type(e).__name__, str(e)[:200]))
            elif k == 'T':
                self.stage('text:' + a, 'gen_circom_string')
            else:
                a, _, fld = a.partition('#')
                v = {'V': 'value' + ('#' + fld if fld else ''), 'E': 'errs', 'F': 'effects', 'X': 'exits', 'C': 'canned', 'D': 'padded', 'W': 'files', 'J': 'arrays'}[k]
                if a.startswith('*'):
                    us = {'*compiler': (0, 2), '*apis': (1, 3)}[a]
                    for s in stages.UNIT:
                        if stages.UNIT[s] in us and self.returns_result(s):
                            self.stage(v, s)
                else:
                    self.stage(v, a)

    def returns_result(self, s):
        f = self.w.fn('ref', s)
        return f is not None and 'Result<' in f.locals[0]

    # rule helpers
    def ok(self, rule, n=1, sample=None):
        self.obligations += n
        self.discharged += n
        if sample is not None and len(self.samples) < 40:
            self.samples.append('%s: %s' % (rule, sample))

    def bad(self, rule, where, what, spans=()):
        self.obligations += 1
        self.findings.append(Finding(self.pid, rule, where, what, spans))

    def unk(self, rule, what):
        self.obligations += 1
        self.undecided.append('%s: %s' % (rule, what))


def known():
    """key -> text of recorded findings; fixed entries suppress nothing"""
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.rstrip('\n')
            if l.startswith('known: property='):
                pid, rest = l[len('known: property='):].split(' ', 1)
                key, txt = rest.split(' :: ', 1)
                out[(pid, key)] = txt
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    err = None
    R = None
    try:
        R = Run(pid, tier)
        R.run()
    except facts.BuildError as e:
        err = str(e)
    viol = []
    kf = known()
    if R is not None:
        for f in R.findings:
            if (pid, f.key) in kf:
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[(pid, f.key)]))
            else:
                viol.append(f)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = [x for x in props.P if x['id'] == pid][0]
    if err is not None:
        print('the tree does not build, nothing was decided: ' + err[:2000])
        cov = {'explanation': 'the current tree does not build: ' + err[:500], 'samples': []}
        nv = 0
    else:
        cov = {
            'explanation': 'Static analysis of MIR facts of the current tree (no execution, no solver): ' + p['note'] +
                           '. Every obligation is one view of one stage compared with the confirmed value graph, or one instance of a structural rule.',
            'obligations': R.obligations, 'discharged': R.discharged, 'undecided': R.undecided[:40], 'violating': [f.key[:400] for f in viol],
            'stages': R.covered, 'notes': R.notes[:40],
            'rule': p['note'], 'samples': R.samples or ['%s: %d functions, %d blocks' % (k, len(v['functions']), v['blocks']) for k, v in list(R.covered.items())[:10]],
            'source_digest': R.w.digest or '', 'terms': TM._cnt[0], 'loops': len(TM.LOOPS),
        }
        nv = len(viol)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - T0, 2), 'violations': nv,
          'assumptions': props.ASSUMPTIONS}
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path, 'w') as fh:
        json.dump(ev, fh, indent=1)
    if R is not None:
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (pid, R.obligations, R.discharged, len(R.undecided), nv, time.time() - T0))
        for u in R.undecided[:10]:
            print('  undecided: ' + u[:400])
    for f in viol:
        print('  %s in %s: %s' % (f.rule, f.where, f.what[:1500]))
        for s in list(dict.fromkeys(f.spans))[:6]:
            print('    at ' + s)
    if viol:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in viol:
                fh.write('%s in %s: %s\n' % (f.rule, f.where, f.what))
                for s in f.spans:
                    fh.write('  at %s\n' % s)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(2 if err is not None else 0)


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def body():
        try:
            main()
        except BaseException:
            traceback.print_exc()
            print('the check itself failed; nothing was decided')
            sys.stdout.flush()
            os._exit(2)
    t = threading.Thread(target=body)
    t.start()
    t.join()
